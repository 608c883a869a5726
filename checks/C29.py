import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib, loop


def run(c):
    loop.run(c, loop.SECURE, 48 if c.thorough else 8)
    c.assumptions += ['schedules are those the machine produces', 'a self-signed certificate, no verification of peers; the timers of the websocket stream itself (half a minute) are not waited for']


vlib.main('C29', 'model_checking', run)
