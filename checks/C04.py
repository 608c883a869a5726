import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

TCFG = 'CONSTANTS MaxItems = 0 Sizes = {} EMIT = FALSE\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'


def enc(op):
    return ' '.join([op['k'], str(op['a']), str(len(op['items']))] + ['%d %d' % (i['id'], i['n']) for i in op['items']])


def run(c):
    exe = c.build('queue', 'queue.cpp', std='c++14', opt='-O1')
    n = 4 if c.thorough else 3
    g = c.graph('Queue', 'CONSTANTS MaxItems = %d Sizes = {0, 1, 3} EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT NoDuplicates\nPROPERTY Removal\nCHECK_DEADLOCK FALSE\n' % n, what='all queue operations on up to %d items' % n)
    walks, cov = g.walks(c.rnd, maxlen=80)
    c.note('graph', {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)})
    w1 = os.path.join(c.dir, 'lock.sh')
    for mode in ('lock', 'nolock'):
        c.replay([exe, mode], g, walks, enc, what='queue (%s)' % mode)
    # long random sequential histories with large sizes, and concurrent ones
    traces = []
    for i in range(40 if c.thorough else 8):
        rc, out, err = vlib.sh([exe, 'random', str(c.seed * 1000 + i), '300'], timeout=60)
        traces.append(('random %d' % i, [json.loads(x) for x in out.splitlines()]))
        if rc != 0:
            c.violation('queue driver died', {'rc': rc, 'err': err[-500:]})
    for i in range(60 if c.thorough else 12):
        rc, out, err = vlib.sh([exe, 'conc', str(c.seed * 1000 + i), '60', str(2 + i % 5)], timeout=60)
        evs = [json.loads(x) for x in out.splitlines()]
        if rc != 0:
            c.violation('concurrent use of the queue crashed', {'rc': rc, 'err': err[-500:]})
            continue
        if any(e.get('unlocked') for e in evs):
            c.violation('a queue operation works without its lock', {'ops': [e for e in evs if e.get('unlocked')][:5]})
            continue
        traces.append(('concurrent %d' % i, evs))
    for label, m, why, evs in c.validate_many('TraceQueue', TCFG, traces, what='queue histories'):
        c.violation('queue history not allowed (%s): %s' % (label, why.splitlines()[0] if why else ''), {'events': evs[:(m or 0) + 3][-12:]})
    c.assumptions += ['exhaustive for queues of up to %d messages with sizes 0, 1, 3; longer queues and bigger sizes by random histories' % n]


vlib.main('C04', 'model_checking', run)
