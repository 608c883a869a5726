import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, pool


def run(c):
    c.parallel([lambda: pool.replay(c, ['bad', 'ok', 'live', 'inv'], names=None if c.thorough else ['server', 'server, recycling, 3', 'server, restoring', 'server, clearing', 'client'], limit=900, lives=False), lambda: pool.threads(c)])


vlib.main('C13', 'model_checking', run)
