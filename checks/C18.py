import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, life


def run(c):
    life.replay(c, ['bad', 'log', 'conn', 'started', 'reading', 'writing', 'sent', 'err'],
                None if c.thorough else ['server', 'server, refusing', 'client, reconnecting', 'client, recycled'])


vlib.main('C18', 'model_checking', run)
