import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib


def configs(thorough):
    C = {}

    def add(name, ver, n, targets, ops):
        C[name] = dict(Ver=ver, N=n, Targets=targets, Ops=ops)
    m = 2 if thorough else 1
    add('4', 4, m, ['v4', 'v4b'], ['start', 'target', 'break', 'force', 'send'])
    add('4, shut down late', 4, m, ['v4'], ['start', 'target', 'late', 'setrec', 'send'])
    add('4, wrong targets', 4, 0, ['v4', 'v6', 'd1', 'empty'], ['start', 'target'])
    add('5', 5, m, ['v4', 'd57'], ['start', 'target', 'break', 'send'])
    add('5, authenticated', 5, m, ['v6', 'd1'], ['start', 'target', 'auth', 'force'])
    add('5, targets', 5, 0, ['v4', 'v4b', 'v6', 'd1', 'd20', 'long', 'empty'], ['start', 'target', 'break'])
    add('5, shut down late', 5, m, ['v4'], ['start', 'target', 'auth', 'late', 'setrec', 'send'])
    return C


def run(c):
    cf = configs(c.thorough)

    def consts(v):
        return 'CONSTANTS %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT NoEarly\nCHECK_DEADLOCK FALSE\n' % ' '.join('%s = %s' % (k, '{%s}' % ', '.join('"%s"' % o for o in x) if isinstance(x, list) else x) for k, x in v.items())

    def gr():
        return dict(zip(cf, c.parallel([(lambda n=n, v=v: c.graph('Socks', consts(v), what='socks ' + n)) for n, v in cf.items()])))
    exes, graphs = c.parallel([lambda: c.build_all({'socks4': dict(src='socks.cpp', std='c++14'), 'socks5': dict(src='socks.cpp', std='c++14', defines=['SOCKS5']),
                                                    'socks4d': dict(src='socks.cpp', std='c++14', ndebug=False), 'socks5d': dict(src='socks.cpp', std='c++14', defines=['SOCKS5'], ndebug=False)}), gr])

    def enc(op):
        k, a = op['k'], op['a']
        if k in ('reply', 'msg'):
            a = [len(a)] + a
        elif k == 'doomed':
            a = [len(a['a']), len(a['b'])] + a['a'] + a['b']
        elif k == 'late':
            a = [a['how'], a['r'], a['before'], len(a['a'])] + a['a']
        return ' '.join([k] + [str(int(x)) if isinstance(x, bool) else str(x) for x in a])

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        for f, want in op['res'].items():
            if f == 'log' and want[0:1] == ['maybe connect']:
                # the shutdown is asynchronous: the answer may have been handled before it
                if got[f] not in (['close'], ['connect', 'close']):
                    return 'callbacks: expected close at last, got %s' % got[f]
            elif got[f] != want:
                return '%s: expected %s, got %s' % (f, want, got[f])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else 3000)
        walks += g.random_walks(c.rnd, 2000 if c.thorough else 300, 60)
        c.note('socks', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        for d in ('', 'd'):
            c.replay(exes['socks%d%s' % (v['Ver'], d)], g, walks if not d or c.thorough else walks[:200], enc, cmp, what='socks ' + n + (' with assertions' if d else ''))


vlib.main('C24', 'model_checking', run)
