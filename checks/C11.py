import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, life


def run(c):
    life.replay(c, ['bad', 'log', 'started', 'broken', 'obsolete', 'dels'])


vlib.main('C11', 'model_checking', run)
