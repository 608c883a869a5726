import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link


def run(c):
    c.parallel([lambda: link.send_schedules(c), lambda: link.recv_schedules(c)])
    c.parallel([lambda: link.send_replay(c, ['overlap'], names=['plain', 'one at once'], limit=600), lambda: link.recv_replay(c, ['overlap', 'offers'], names=['single', 'batch', 'passive'], limit=600)])


vlib.main('C07', 'model_checking', run)
