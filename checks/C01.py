import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, framing

vlib.main('C01', 'model_checking', lambda c: framing.run(c, bad=False))
