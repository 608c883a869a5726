import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link


def run(c):
    c.parallel([lambda: link.recv_replay(c, ['offers', 'sync', 'popped'], names=None if c.thorough else ['single', 'single, slow retry', 'batch', 'sync', 'syncbatch', 'passivesync', 'passivebatch'], limit=1200), lambda: link.recv_schedules(c)])


vlib.main('C10', 'model_checking', run)
