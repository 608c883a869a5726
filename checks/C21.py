import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib


def run(c):
    sizes = [(1, 2), (2, 1), (3, 2)] + ([(4, 4), (2, 5)] if c.thorough else [])
    exes, graphs = c.parallel([lambda: c.build_all({'accept%d%d' % s: dict(src='accept.cpp', std='c++14', defines=['NUM=%d' % s[0], 'LIMIT=%d' % s[1]]) for s in sizes}),
                               lambda: c.parallel([(lambda s=s: c.graph('Accept', 'CONSTANTS Num = %d Limit = %d EMIT = TRUE\nSPECIFICATION Spec\nINVARIANTS AcceptsWhileListening Bounded\nCHECK_DEADLOCK FALSE\n' % s,
                                                                        what='accepting %d at once, %d links' % s)) for s in sizes])])
    for s, g in zip(sizes, graphs):
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None)
        walks += g.random_walks(c.rnd, 2000 if c.thorough else 300, 100)
        c.note('accepting', {'%d at once, %d links' % s: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def cmp(op, post, got):
            if got.get('bad'):
                return got['bad']
            for f in ('ok', 'svc', 'lis', 'acc', 'live'):
                if got.get(f) != op['res'][f]:
                    return '%s: expected %s, got %s' % (f, op['res'][f], got.get(f))
        c.replay(exes['accept%d%d' % s], g, walks, lambda op: ' '.join([op['k']] + [str(int(x)) if isinstance(x, bool) else str(x) for x in op['a']]), cmp, what='accepting %d at once, %d links' % s)
    c.assumptions += ['the acceptor and the links are in memory; one thread; a connection accepted by the system just before listening is stopped may still be reported']


vlib.main('C21', 'model_checking', run)
