import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, link, udp


def run(c):
    udp.send_replay(c)
    udp.run(c, 40 if c.thorough else 4)
    link.recv_replay(c, ('offers', 'sync', 'popped', 'bytes', 'avail', 'reading', 'idle', 'overlap'), limit=1200, udp=True)


vlib.main('C23', 'model_checking', run)
