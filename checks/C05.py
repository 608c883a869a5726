import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link


def run(c):
    link.send_replay(c, ['ret', 'gone', 'popped', 'bytes', 'avail'])


vlib.main('C05', 'model_checking', run)
