import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, life


def run(c):
    life.replay(c, ['bad', 'log', 'started', 'conn', 'connecting', 'reading', 'rec', 'sent', 'dels'],
                None if c.thorough else ['client, reconnecting', 'client, traffic', 'client, cannot bind', 'client, recycled', 'client, delayed close'])


vlib.main('C12', 'model_checking', run)
