import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, sync


CFG = '''SPECIFICATION Spec
CONSTANTS
 Callers = {%s}
 Msgs = %d
INVARIANTS OneWaiter Once NothingLost
PROPERTIES WokenUp Returns
CHECK_DEADLOCK FALSE
'''


def run(c):
    c.model_check('SyncRecv', CFG % (('c1, c2, c3', 4) if c.thorough else ('c1, c2', 3)), 'design: the hand-over to synchronous receivers')
    n = 10 if c.thorough else 1
    c.parallel([lambda: sync.run(c, 'recv', [b for b in sync.BUILDS if 'shrinking' not in b and 'passive' not in b], 400 * n),
                lambda: sync.run(c, 'recv', [b for b in sync.BUILDS if 'passive' in b], 2000 * n)])


vlib.main('C20', 'model_checking', run)
