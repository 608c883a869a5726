"""real servers and clients over the loopback network (harness/loop.cpp); every direction of every link is validated against TraceLoop.tla"""
import json

CFG = 'CONSTANT Senders = {1, 2, 3}\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'
SMALL = ['ST_ASIO_MAX_SEND_BUF=4200', 'ST_ASIO_MAX_RECV_BUF=600']
PLAIN = {
    'plain': dict(defines=SMALL),
    'batch': dict(defines=SMALL + ['ST_ASIO_DISPATCH_BATCH_MSG']),
    'sync': dict(defines=SMALL + ['ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY']),
}
SAN = ['-fsanitize=address']
SECURE = {
    'ssl': dict(defines=SMALL + ['SSL_LINK', 'ST_ASIO_REUSE_OBJECT'], libs=['-lssl', '-lcrypto'], extra=SAN),
    'websocket': dict(defines=SMALL + ['WS_LINK'], libs=[]),
    'websocket over ssl': dict(defines=SMALL + ['SSL_LINK', 'WS_LINK', 'ST_ASIO_REUSE_OBJECT'], libs=['-lssl', '-lcrypto']),
}
STAGES = {'ssl': 1, 'websocket': 1, 'websocket over ssl': 2}


def plans(c, n):
    r, res = c.rnd, []
    for i in range(n):
        breaks = (0, 0, 2, 4)[i % 4]
        res.append(dict(seed=r.randrange(1 << 20), links=r.choice((1, 2, 3)), senders=r.choice((1, 2, 3)), per=r.choice((20, 40, 60)) * (2 if breaks else 1),
                        threads=r.choice((1, 2, 4, 6)), refuse=r.choice((0, 5, 15)), big=r.choice((0, 1)), breaks=breaks, bad=0))
    return res


def run(c, kinds, runs, before=None):
    """builds the kinds and validates `runs` histories of each; before() runs while they are built"""
    import vlib
    exes = {}

    def one(kind, p):
        if kind in STAGES:
            p = dict(p, bad=p['seed'] % 7)
        args = ['%s=%s' % kv for kv in p.items()]
        rc, out, err = vlib.sh([exes['loop-' + kind.replace(' ', '-')]] + args, timeout=400)
        label = 'loopback %s %s' % (kind, ' '.join(args))
        if rc != 0:
            c.violation('%s: the program %s' % (label, 'never ended' if rc is None else 'ended with %s' % rc), {'args': args, 'err': err[-2000:]})
            return []
        res = []
        for line in out.splitlines():
            d = json.loads(line)
            if not d['up']:
                c.violation('%s: a link was not established' % label, {'args': args})
                return []
            if 'o' in d:
                lives.append((kind, '%s object %d' % (label, d['o']), d['ev'] + [{'e': 'end'}]))
                continue
            res.append(('%s direction %d' % (label, d['d']), d['ev'] + [{'e': 'end', 'whole': not d['cut']}]))
        return res
    traces, lives = [], []
    jobs = [(k, p) for k in kinds for p in plans(c, runs)]

    def kind(k):
        name = 'loop-' + k.replace(' ', '-')
        exes[name] = c.build(name, 'loop.cpp', std='c++14', **kinds[k])
        mine = [j for j in jobs if j[0] == k]
        for i in range(0, len(mine), 2):
            for t in c.parallel([(lambda j=j: one(*j)) for j in mine[i:i + 2]]):
                traces.extend(t)
            if c.violations:
                return
    c.parallel([(lambda k=k: kind(k)) for k in kinds] + [before or (lambda: None)])
    if c.violations:
        return
    c.note('loopback', {'runs': len(jobs), 'directions': len(traces), 'events': sum(len(t[1]) for t in traces), 'kinds': list(kinds)})
    parts = [traces[k::6] for k in range(6)]
    res = sum(c.parallel([(lambda t=t: c.validate_many('TraceLoop', CFG, t, what='history of a real link')) for t in parts if t]), [])
    for label, matched, why, evs in res:
        c.violation('%s: event %s is not allowed' % (label, matched), {'events': evs[max(0, (matched or 0) - 60):(matched or 0) + 3], 'why': why})
    for n in (0, 1, 2):
        t = [x[1:] for x in lives if STAGES.get(x[0], 0) == n]
        for label, matched, why, evs in c.validate_many('TraceSecure', 'CONSTANT Stages = %d\n' % n + CFG.split('\n', 1)[1], t, what='life of a real link with %d handshakes' % n) if t else []:
            c.violation('%s: event %s is not allowed' % (label, matched), {'events': evs, 'why': why})
