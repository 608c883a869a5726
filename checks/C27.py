import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib


def configs(t):
    C = {}

    def add(name, server, h, n, cap, ops):
        C[name] = (server, cap, dict(H=h, N=n, Cap=cap, Client=str(not server).upper(), Ops='{%s}' % ', '.join('"%s"' % o for o in ops)))
    add('server', True, 2, 3, 1, ['del', 'send'])
    add('server, larger buffers', True, 2, 4, 2, ['two'] if not t else ['two', 'del'])
    add('client', False, 2, 3, 1, ['send'] if not t else ['send', 'del'])
    add('server, 3 links', True, 3, 3 if t else 2, 1, ['del'])
    return C


def threads(c):
    """several threads broadcast, add, remove and send; TLC decides whether each recorded history belongs to the specification"""
    exe = c.build('bcastmt', 'bcastmt.cpp', std='c++14', libs=['-ldl'])
    lines, r = [], c.rnd
    for _ in range(6000 if c.thorough else 1200):
        nt, nl = r.choice((2, 2, 3)), r.choice((1, 2, 2, 3))
        m, progs, spare = 0, [], list(range(nl + 1, 5))
        for t in range(nt):
            ops = []
            for _ in range(r.choice((1, 2, 3)) if nt == 2 else r.choice((1, 2))):
                m += 1
                k = r.choice(('bc', 'bcptr', 'safe', 'safeptr', 'native', 'safenative', 'bc', 'safe', 'add', 'add', 'del', 'del', 'send'))
                if k == 'add':
                    k = k if spare else 'bc'
                ops.append((k, spare.pop() if k == 'add' else r.randrange(1, nl + 1) if k in ('del', 'send') else 0, m))
            if ops[-1][0] == 'add' and r.random() < .5:
                ops.append(('del', ops[-1][1], 0))
            progs.append(' '.join('%s %d %d' % x for x in ops))
        lines.append('%d %d %d ; %s' % (r.randrange(1, 1 << 30), nl, r.randrange(2), ' ; '.join(progs)))

    def go(ls):
        rc, out, err = vlib.sh([exe], timeout=300, stdin=('\n'.join(ls) + '\n').encode())
        ans, traces = out.splitlines(), []
        for i, line in enumerate(ls):
            if i >= len(ans):
                c.violation('threads which broadcast: the driver died or hung', {'line': line, 'rc': rc, 'err': err[-500:]})
                return traces
            d = json.loads(ans[i])
            if d.get('bad'):
                c.violation('threads which broadcast: ' + d['bad'], {'line': line, 'events': d['ev']})
                return traces
            traces.append((line, d['ev']))
        return traces
    parts = c.parallel([(lambda k=k: go(lines[k::4])) for k in range(4)])
    cfg = 'CONSTANTS Objs = {1, 2, 3, 4} Threads = {1, 2, 3}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'
    res = sum(c.parallel([(lambda t=t: c.validate_many('TraceBroadcast', cfg, t, what='history of threads which broadcast')) for t in parts if t]), [])
    for label, matched, why, evs in res:
        c.violation('threads which broadcast: event %s is not allowed' % matched, {'line': label, 'events': evs, 'why': why})


def run(c):
    cf = configs(c.thorough)

    def gr():
        return dict(zip(cf, c.parallel([(lambda n=n, v=v: c.graph('Broadcast', 'CONSTANTS %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANTS Distinct NoIdle Within\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n'
                                                                  % ' '.join('%s = %s' % kv for kv in v[2].items()), what='broadcasts, ' + n)) for n, v in cf.items()])))
    builds = {'bcast-' + n.replace(' ', '-').replace(',', ''): dict(src='bcast.cpp', std='c++14', defines=['CAP=%d' % v[1], 'HS=%d' % v[2]['H']] + ['SERVER'] * v[0]) for n, v in cf.items()}
    exes, graphs, _ = c.parallel([lambda: c.build_all(builds), gr, lambda: threads(c)])

    for n, v in cf.items():
        if c.violations:
            break
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=80, limit=20000 if c.thorough else 6000)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 300, 80)
        c.note('containers', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def enc(op):
            a = op['a']
            if op['k'] == 'bcast':
                return 'bcast ' + ' '.join(str(int(x)) for x in [a[0], a[1], a[2], c.rnd.randrange(6), 1 if len(a[3]) > 1 else c.rnd.randrange(2), len(a[3])] + a[3] + a[4])
            return ' '.join([op['k']] + [str(int(x)) for x in a])

        def cmp(op, post, got):
            if got.get('bad'):
                return got['bad']
            for f in ('ok', 'q', 'w', 'sent'):
                if got[f] != op['res'][f]:
                    return '%s: %s is %s instead of %s' % (op['k'], {'ok': 'the result', 'q': 'waiting', 'w': 'being written', 'sent': 'written'}[f], got[f], op['res'][f])
        c.replay(exes['bcast-' + n.replace(' ', '-').replace(',', '')], g, walks, enc, cmp, what='broadcasts, ' + n)


vlib.main('C27', 'model_checking', run)
