import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib


def run(c):
    D = lambda *d: dict(src='packers.cpp', defines=list(d), std='c++14', opt='-O1')
    # name: (build, driver argv, kind, limit, head, pre, suf, range)
    cf = {}
    for u in ('packer', 'packer_bb', 'packer2', 'packer2_sbb', 'packer2_ss'):
        cf[u] = ('p10', [u], 'head', 10, 2, 0, 0, 65535)
        cf[u + '/huge'] = ('p12h', [u], 'head', 12, 4, 0, 0, 2147483647)
        cf[u + '/70000'] = ('p70000', [u], 'head', 70000, 2, 0, 0, 65535)
    cf['fixed'] = ('p10', ['fixed'], 'fixed', 10, 2, 0, 0, 65535)
    for p, s in (('-', '\n'), ('ab', '\r\n'), ('begin', 'end')):
        cf['ps %r %r' % (p, s)] = ('p10', ['ps', p, s], 'ps', 10, 2, 0 if p == '-' else len(p), len(s), 65535)
    graphs = {}

    def gr():
        keys = sorted({v[2:] for v in cf.values()})

        def one(k):
            kind, limit, head, pre, suf, rng = k
            over = {'head': head, 'ps': pre + suf, 'fixed': 0}[kind]
            m = min(limit, rng if kind == 'head' else limit) - over
            lens = sorted({-2, -1, 0, 1, 2, m - 1, m, m + 1, limit, limit + 1} | ({m - over, limit - over} if limit > 1000 else set(range(0, limit + 2))))
            if limit <= 1000 and not c.thorough:
                lens = [x for x in lens if x not in (4, 6)]
            cfg = ('CONSTANTS Kind = "%s" Limit = %d HeadLen = %d PreLen = %d SufLen = %d Range = %d Lens <- MCLens MaxParts = %d EMIT = TRUE\nSPECIFICATION Spec\n'
                   'INVARIANTS Fits FormsAgree\nCHECK_DEADLOCK FALSE\n' % (kind, limit, head, pre, suf, rng, 3))
            graphs[k] = c.graph('MCPackers', cfg, mods={'MCPackers': 'EXTENDS Packers\nMCLens == {%s}' % ', '.join(map(str, lens))}, what='%s limit %d' % (kind, limit))
        c.parallel([(lambda k=k: one(k)) for k in keys])
    exes = c.parallel([lambda: c.build_all({'p10': D('ST_ASIO_MSG_BUFFER_SIZE=10'), 'p12h': D('ST_ASIO_MSG_BUFFER_SIZE=12', 'ST_ASIO_HUGE_MSG'), 'p70000': D('ST_ASIO_MSG_BUFFER_SIZE=70000')}), gr])[0]
    for n, v in cf.items():
        g = graphs[v[2:]]
        walks, cov = g.walks(c.rnd, maxlen=200)
        c.note('packers', {n: {'edges': len(g.edges), 'covered': cov}})
        c.replay([exes[v[0]]] + v[1], g, walks, lambda op: ' '.join([op['form'], '1' if op['native'] else '0'] + [str(x) for x in op['lens']]),
                 lambda op, post, got: got['bad'] if got.get('bad') else None if got == op['res'] else 'expected %s' % op['res'], what=n)
    c.assumptions += ['up to 3 body parts with every length from 0 to the limit + 1 (limits 10 and 12), boundary lengths for the limit of 70000 bytes with a two byte head']


vlib.main('C03', 'model_checking', run)
