"""replay of UdpLink.tla in the real datagram socket; histories of real datagram sockets (harness/udploop.cpp) validated against TraceLoop.tla"""
import json
import loop
NOTIFY = ['ST_ASIO_WANT_MSG_SEND_NOTIFY', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY']


def configs(thorough):
    C = {}

    def add(name, n, limit, connect, notify, ops):
        C[name] = dict(N=n, Limit=limit, Connect=connect, Notify=notify, Ops=ops)
    m = 4 if thorough else 3
    add('unconnected', m, 20, False, False, ['start', 'send', 'fail', 'force', 'big'])
    add('notified', m, 15, False, True, ['start', 'send', 'fail', 'beat', 'setpeer', 'pop'])
    add('sent again', m, 10, False, False, ['start', 'send', 'resend', 'beat', 'setpeer', 'popall'])
    add('connected', m, 20, True, False, ['start', 'send', 'fail', 'force', 'setpeer', 'beat'])
    add('connected, notified', 2, 10, True, True, ['start', 'send', 'fail', 'force', 'setpeer', 'beat', 'pop', 'popall', 'big'])
    if thorough:
        add('all', 3, 20, False, True, ['start', 'send', 'fail', 'resend', 'force', 'setpeer', 'beat', 'pop', 'popall', 'big'])
    return C


def send_replay(c, limit=2500):
    cf = configs(c.thorough)

    def consts(v, emit):
        return 'CONSTANTS %s EMIT = %s\nSPECIFICATION Spec\nINVARIANTS NothingLeft Target\n%sCHECK_DEADLOCK FALSE\n' % (
            ' '.join('%s = %s' % (k, '{%s}' % ', '.join('"%s"' % o for o in x) if k == 'Ops' else str(x).upper()) for k, x in v.items()), str(emit).upper(), '' if emit else 'PROPERTY Sent\n')

    def gr():
        fns = [(lambda n=n, v=v: c.graph('UdpLink', consts(v, True), what='datagrams, ' + n)) for n, v in cf.items()]
        mc = [(lambda v=v: c.model_check('UdpLink', consts(dict(v, N=3), False), 'datagrams leave')) for n, v in cf.items() if n in ('unconnected', 'connected')]
        res = c.parallel(fns + mc)
        return dict(zip(cf, res))

    def builds():
        return c.build_all({'udps%d%d' % (a, b): dict(src='udpsend.cpp', std='c++14', defines=(['CONN'] if a else []) + (NOTIFY if b else [])) for a in (0, 1) for b in (0, 1)})
    exes, graphs = c.parallel([builds, gr])

    def enc(op):
        a = op['a']
        vals = [a[k] for k in ('id', 'to', 'ovf', 'prior') if k in a] if isinstance(a, dict) else a
        return ' '.join([op['k']] + [str(int(x)) if isinstance(x, bool) else str(x) for x in vals])

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        for f, want in op['res'].items():
            if f == 'connected' and post['ph'] != 'up':
                continue
            if got[f] != want:
                return '%s: expected %s, got %s' % (f, want, got[f])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else limit)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 200, 80)
        c.note('datagrams', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        c.replay([exes['udps%d%d' % (v['Connect'], v['Notify'])], str(v['Limit'])], g, walks, enc, cmp, what='datagrams, ' + n)


KINDS = {'plain': [], 'batch': ['ST_ASIO_DISPATCH_BATCH_MSG'], 'sync': ['ST_ASIO_SYNC_DISPATCH'], 'unix': ['UNIX'], 'unix batch': ['UNIX', 'ST_ASIO_DISPATCH_BATCH_MSG']}


def run(c, runs):
    """real datagram sockets in a service with several threads; every direction between two sockets is one history"""
    import vlib
    exes = c.build_all({'udploop-' + k.replace(' ', '-'): dict(src='udploop.cpp', std='c++14', defines=d + loop.SMALL) for k, d in KINDS.items()})
    r, jobs = c.rnd, []
    for k in KINDS:
        for i in range(runs):
            jobs.append((k, dict(seed=r.randrange(1 << 20), socks=r.choice((2, 3, 4)), conn=int('unix' not in k and i % 3 == 2), threads=r.choice((1, 2, 4)),
                                 senders=r.choice((1, 2, 3)), per=r.choice((30, 60, 120)), refuse=r.choice((0, 5, 20)))))

    def one(kind, p):
        args = ['%s=%s' % kv for kv in p.items()]
        label = 'datagrams %s %s' % (kind, ' '.join(args))
        rc, out, err = vlib.sh([exes['udploop-' + kind.replace(' ', '-')]] + args, timeout=300)
        if rc != 0:
            c.violation('%s: the program %s' % (label, 'never ended' if rc is None else 'ended with %s' % rc), {'args': args, 'err': err[-2000:]})
            return []
        res = []
        for d in map(json.loads, out.splitlines()):
            if 'bad' in d:
                c.violation('%s: %s' % (label, d['bad']), {'args': args})
                return []
            res.append(('%s from %d to %d' % (label, d['d'] // 8, d['d'] % 8), d['ev'] + [{'e': 'end', 'whole': True}]))
        return res
    traces = []
    for i in range(0, len(jobs), 4):
        for t in c.parallel([(lambda j=j: one(*j)) for j in jobs[i:i + 4]]):
            traces.extend(t)
        if c.violations:
            return
    c.note('datagrams over the loopback network', {'runs': len(jobs), 'directions': len(traces), 'events': sum(len(t[1]) for t in traces), 'kinds': list(KINDS)})
    parts = [traces[k::4] for k in range(4)]
    for label, matched, why, evs in sum(c.parallel([(lambda t=t: c.validate_many('TraceLoop', loop.CFG, t, what='history of real datagrams')) for t in parts if t]), []):
        c.violation('%s: event %s is not allowed' % (label, matched), {'events': evs[max(0, (matched or 0) - 60):(matched or 0) + 3], 'why': why})
