import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link


def run(c):
    c.parallel([lambda: link.send_replay(c, ['writing', 'left', 'sending'], names=['plain', 'limit 1', 'one at once', 'big', 'shrink 2'], limit=800), lambda: link.send_schedules(c)])
    c.assumptions += ['the schedules stop the real threads at every access to the send buffer, at the look at the link state and at the transport; the sending flag itself is only interleaved at those places']


vlib.main('C08', 'model_checking', run)
