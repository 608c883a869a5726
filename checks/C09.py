import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link


def run(c):
    link.recv_replay(c, ['reading', 'idle', 'avail', 'bytes', 'dm'], names=['single', 'single, limit 1', 'batch', 'batch, slow retry', 'sync', 'passive', 'passivesync'], limit=1500)


vlib.main('C09', 'model_checking', run)
