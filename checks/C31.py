import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, reliable


def run(c):
    reliable.replay(c)
    if not c.violations:
        reliable.run(c, 60 if c.thorough else 8)
    c.assumptions += ['KCP itself is replaced by a small protocol with the same interface (it is not shipped with the library)']


vlib.main('C31', 'model_checking', run)
