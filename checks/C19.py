import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, sync


CFG = 'SPECIFICATION Spec\nCONSTANTS\n Callers = {%s}\n Restarts = 2\nPROPERTIES Truth Kept NoHang\nCHECK_DEADLOCK FALSE\n'


def run(c):
    c.model_check('SyncSend', CFG % ('c1, c2, c3' if c.thorough else 'c1, c2'), 'design: who resolves synchronous sends')
    sync.run(c, 'send', [n for n in sync.BUILDS if 'passive' not in n], 6000 if c.thorough else 500)


vlib.main('C19', 'model_checking', run)
