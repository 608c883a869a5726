import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

DEC = 'ST_ASIO_DECREASE_THREAD_AT_RUNTIME'
AVOID = 'ST_ASIO_AVOID_AUTO_STOP_SERVICE'


def configs(thorough):
    C = {}

    def add(name, s, ctx, avoid, dec, thr, ops):
        C[name] = dict(S=s, Ctx=ctx, Avoid=avoid, Dec=dec, MaxThr=thr, Ops=ops)
    add('services', 3 if thorough else 2, 1, False, False, 2, ['start', 'run', 'svc', 'remove', 'fail', 'idle'])
    add('kept running', 2, 1, True, False, 2, ['start', 'run', 'svc', 'remove', 'throw', 'idle'])
    add('ids', 2, 1, True, False, 1, ['start', 'svc', 'id', 'remove'])
    add('threads', 1, 1, False, True, 5 if thorough else 4, ['start', 'run', 'thr', 'adddel', 'throw', 'svc'])
    add('several io_contexts', 1, 2, False, False, 5, ['start', 'run', 'thr', 'svc', 'remove', 'idle'])
    add('several io_contexts, kept running', 1, 3, True, False, 6, ['start', 'run', 'thr', 'svc'])
    return C


def run(c):
    cf = configs(c.thorough)

    def consts(v):
        def val(x):
            return '{%s}' % ', '.join('"%s"' % o for o in x) if isinstance(x, list) else str(x).upper()
        return 'CONSTANTS %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n' % ' '.join('%s = %s' % (k, val(x)) for k, x in v.items())

    def gr():
        return dict(zip(cf, c.parallel([(lambda n=n, v=v: c.graph('Pump', consts(v), what='pump, ' + n)) for n, v in cf.items()])))

    def kind(v):
        return 'pump%d%d%d' % (v['Ctx'], v['Avoid'], v['Dec'])
    exes, graphs = c.parallel([lambda: c.build_all({kind(v): dict(src='pump.cpp', std='c++14', defines=['CTX=%d' % v['Ctx']] + ([AVOID] if v['Avoid'] else []) + ([DEC] if v['Dec'] else [])) for v in cf.values()}), gr])

    def enc(op):
        r = op['res']
        return ' '.join([op['k']] + [str(int(x)) if isinstance(x, bool) else str(x) for x in [r['started'], r['alive'], len(r['thr'])] + r['thr'] + op['a']])

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        for f, want in op['res'].items():
            if got[f] != want:
                return '%s: expected %s, got %s' % (f, want, got[f])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else 700)
        walks += g.random_walks(c.rnd, 600 if c.thorough else 60, 60)
        c.note('pump', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        c.replay(exes[kind(v)], g, walks, enc, cmp, what='pump, ' + n, timeout=800)


vlib.main('C16', 'model_checking', run)
