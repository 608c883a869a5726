"""replay of Pool.tla in real containers of server and client sockets; shared by C13, C14 and C26, each of which judges its own observables"""
import json


def configs(thorough):
    C = {}

    def add(name, build, slots, ops, client=False, reuse=False, clear=False, limit=2, last=4, foreign=(99,)):
        C[name] = (build + ('c' if client else 's') + ('3' if slots == 3 else ''), dict(H=slots, Limit=limit, Client=str(client).upper(), Reuse=str(reuse).upper(), Clear=str(clear).upper(), LastId=last,
                   Foreign='{%s}' % ', '.join(map(str, foreign)), Ops='{%s}' % ', '.join('"%s"' % o for o in ops)))
    t = thorough
    add('server', 'plain', 3 if t else 2, ['hold', 'del', 'kill', 'free'], last=4 if t else 3)
    add('server, timers', 'plain', 3, ['kill', 'sweep'], last=4 if t else 3)
    add('server, recycling', 'reuse', 2, ['hold', 'del', 'kill', 'free'], reuse=True, last=4)
    add('server, recycling, 3', 'reuse', 3, ['kill'], reuse=True, last=5 if t else 4, limit=3)
    add('server, restoring', 'restore', 2, ['kill', 'restore', 'init', 'free'], last=4 if t else 3)
    add('server, clearing', 'clear', 2, ['hold', 'kill', 'kick', 'free', 'sweep'], clear=True, last=3)
    add('client', 'plain', 2, ['hold', 'del', 'kill', 'free', 'sweep'], client=True, last=3)
    add('client, recycling', 'reuse', 2, ['hold', 'del', 'kill'], client=True, reuse=True, last=4)
    if t:
        add('client, clearing, recycling', 'reclear', 2, ['kill', 'kick', 'free'], client=True, reuse=True, clear=True)
        add('server, restoring, 3', 'restore', 3, ['kill', 'restore', 'init'], last=4)
    return C


DEFS = {'plain': [], 'reuse': ['ST_ASIO_REUSE_OBJECT'], 'restore': ['ST_ASIO_RESTORE_OBJECT'], 'clear': ['ST_ASIO_CLEAR_OBJECT_INTERVAL=2'], 'reclear': ['ST_ASIO_REUSE_OBJECT', 'ST_ASIO_CLEAR_OBJECT_INTERVAL=2']}


def build_of(cf):
    B = {}
    for b, k in cf.values():
        base = b.rstrip('3')
        B[b + str(k['Limit'])] = dict(src='pool.cpp', std='c++14', defines=DEFS[base[:-1]] + (['SERVER'] if base[-1] == 's' else []) + ['LIMIT=%d' % k['Limit'], 'SLOTS=%d' % k['H']])
    return B


LIVES = ('earlier life', 'recycled', 'counters', 'first message', 'destroyed', 'reading', 'writing', 'written', 'taken over', 'take_over', 'already running')


def replay(c, fields, names=None, limit=2500, lives=None):
    """lives: judge the driver's findings about the life of objects (True), about the pool (False), or all"""
    cf = {k: v for k, v in configs(c.thorough).items() if names is None or k in names}

    def gr():
        fns = [(lambda n=n, v=v: c.graph('MCPool', 'CONSTANTS %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANTS Bounded UniqueIds OnePlace\nPROPERTIES Safe\nCHECK_DEADLOCK FALSE\n'
                                         % ' '.join('%s = %s' % kv for kv in v[1].items()), what='pool, ' + n, mods={'MCPool': 'EXTENDS Pool'})) for n, v in cf.items()]
        res = []
        for i in range(0, len(fns), 5):
            res += c.parallel(fns[i:i + 5])
        return dict(zip(cf, res))
    exes, graphs = c.parallel([lambda: c.build_all(build_of(cf)), gr])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=20000 if c.thorough else limit)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 200, 80)
        c.note('pools', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def enc(op):
            return ' '.join([op['k']] + [str(int(x)) if isinstance(x, bool) else str(x) for x in op['a']])

        def cmp(op, post, got):
            if got.get('bad') and 'bad' in fields and lives in (None, any(x in got['bad'] for x in LIVES)):
                return got['bad']
            for f in fields:
                if f != 'bad' and got.get(f) != op['res'][f]:
                    return '%s: expected %s, got %s' % (f, op['res'][f], got.get(f))
        c.replay(exes[v[0] + str(v[1]['Limit'])], g, walks, enc, cmp, what='pool, ' + n)
    return exes


def threads(c):
    """several threads use one pool; TLC decides whether each recorded history is linearizable"""
    exe = c.build_all({'poolmt': dict(src='poolmt.cpp', std='c++14')})['poolmt']
    lines, r = [], c.rnd
    for _ in range(6000 if c.thorough else 900):
        nt, limit, nl = r.choice((2, 2, 3)), 2, r.choice((0, 1, 1, 2))
        progs = []
        for t in range(nt):
            own = 3 + t
            ops = []
            for _ in range(r.choice((1, 2, 2, 3)) if nt == 2 else r.choice((1, 2))):
                k = r.choice(('add', 'add', 'del', 'del', 'delid', 'init', 'init', 'find', 'size'))
                o = r.choice((1, 1, 2, own))
                i = r.choice((1, 2, own, 9, 9))
                if k == 'add':
                    if ('add', own) in [x[:2] for x in ops]:
                        k = 'find'
                    o = own
                if k == 'init': # a link's id is changed by one thread
                    o = r.choice((own, min(t + 1, 2))) if t < 2 else own
                ops.append((k, o, i))
            progs.append(' '.join('%s %d %d' % x for x in ops))
        names = ['t%d' % (t + 1) for t in range(nt)]
        w = [r.choice((1, 1, 2)) for _ in names]
        lines.append('2 5 %d ; %s ; %s' % (nl, ' ; '.join(progs), ' '.join(r.choices(names, w, k=r.randrange(4, 30)))))

    import vlib

    def go(ls):
        rc, out, err = vlib.sh([exe], timeout=300, stdin=('\n'.join(ls) + '\n').encode())
        ans, traces = out.splitlines(), []
        for i, l in enumerate(ls):
            if i >= len(ans):
                c.violation('threads on a pool: the driver died or hung', {'line': l, 'rc': rc, 'err': err[-500:]})
                return traces
            d = json.loads(ans[i])
            if d.get('bad'):
                c.violation('threads on a pool: ' + d['bad'], {'line': l, 'events': d['ev']})
                return traces
            traces.append((l, d['ev']))
        return traces
    parts = c.parallel([(lambda k=k: go(lines[k::4])) for k in range(4)])
    cfg = 'CONSTANTS Objs = {1, 2, 3, 4, 5} Threads = {1, 2, 3} Limit = 2\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'
    res = sum(c.parallel([(lambda t=t: c.validate_many('TracePool', cfg, t, what='history of threads on a pool')) for t in parts if t]), [])
    for label, matched, why, evs in res:
        c.violation('threads on a pool: event %s is not allowed' % matched, {'line': label, 'events': evs, 'why': why})
