import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, pool


def run(c):
    pool.replay(c, ['bad', 'ok', 'inv', 'gone', 'up'], names=None if c.thorough else ['server', 'server, timers', 'server, recycling', 'server, restoring', 'server, clearing', 'client, recycling'], limit=900, lives=True)


vlib.main('C14', 'model_checking', run)
