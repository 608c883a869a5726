import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link


def run(c):
    c.parallel([lambda: link.send_replay(c, ['dm', 'db'], names=['plain', 'one at once', 'notify', 'notify, taken', 'resending', 'big'], limit=800), lambda: link.recv_replay(c, ['dm', 'db'], names=['single', 'batch', 'sync', 'passive'], limit=800)])


vlib.main('C26', 'model_checking', run)
