"""replay of Reliable.tla in the real reliable socket over a stand-in for KCP; histories of two real reliable sockets over a lossy network (TraceLoop.tla)"""
import os
import json
import vlib
import loop
KCP = ['-I' + os.path.join(vlib.VERIF, 'harness', 'kcp')]


def replay(c, limit=2500):
    m = 5 if c.thorough else 4
    cf = {'reliable': dict(N=m, Limit=16, W=1, Connect=True, Maxes=[0], Ops=['create', 'close']),
          'limits': dict(N=4, Limit=24, W=1, Connect=True, Maxes=[0, 1], Ops=['create', 'setmax']),
          'window': dict(N=m, Limit=8, W=2, Connect=True, Maxes=[0], Ops=['create']),
          'both ways': dict(N=3, Limit=16, W=1, Connect=True, Maxes=[0], Ops=['create', 'data', 'close']),
          'unconnected': dict(N=2, Limit=16, W=1, Connect=False, Maxes=[0, 1], Ops=['create', 'data', 'setmax', 'close'])}

    def consts(v, emit):
        one = lambda x: '{%s}' % ', '.join('"%s"' % o if isinstance(o, str) else str(o) for o in x) if isinstance(x, list) else str(x).upper()
        return 'CONSTANTS %s EMIT = %s\nSPECIFICATION Spec\nINVARIANTS Pressure Paused\n%sCHECK_DEADLOCK FALSE\n' % (
            ' '.join('%s = %s' % (k, one(x)) for k, x in v.items()), str(emit).upper(), 'VIEW View\n' if emit else 'CONSTRAINT Bound\nPROPERTY Sent\n')
    mods = {'MCReliable': 'EXTENDS Reliable\nView == St\n'}

    def gr():
        fns = [(lambda n=n, v=v: c.graph('MCReliable', consts(v, True), what='reliable datagrams, ' + n, mods=mods)) for n, v in cf.items()]
        mc = [lambda: c.model_check('Reliable', consts(dict(cf['limits'], N=3), False), 'a paused socket resumes'), lambda: c.model_check('Reliable', consts(dict(cf['both ways'], N=3), False), 'a paused socket resumes, closing')]
        return dict(zip(cf, c.parallel(fns + mc)))
    exes, graphs = c.parallel([lambda: c.build_all({'reliable%d' % b: dict(src='reliable.cpp', std='c++14', defines=['ST_ASIO_DISPATCH_BATCH_MSG'] if b else [], extra=KCP) for b in (0, 1)}), gr])

    def enc(op):
        a = op['a']
        vals = [a[k] for k in ('id', 'ovf', 'prior') if k in a] if isinstance(a, dict) else a
        return ' '.join([op['k']] + [str(int(x)) if isinstance(x, bool) else str(x) for x in vals])

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        for f, want in op['res'].items():
            if got[f] != want:
                return '%s: expected %s, got %s' % (f, want, got[f])
    for i, (n, v) in enumerate(cf.items()):
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else limit)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 150, 80)
        c.note('reliable datagrams', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        for b in (0, 1):
            c.replay([exes['reliable%d' % b], str(int(v['Connect'])), str(v['Limit']), str(v['W'])], g, walks if not b else walks[::3], enc, cmp, what='reliable datagrams, ' + n)


def run(c, runs):
    kinds = {'plain': [], 'batch': ['ST_ASIO_DISPATCH_BATCH_MSG'], 'sync': ['ST_ASIO_SYNC_DISPATCH']}
    exes = c.build_all({'relloop-' + k: dict(src='relloop.cpp', std='c++14', defines=d + loop.SMALL, extra=KCP) for k, d in kinds.items()})
    r, jobs = c.rnd, []
    for k in kinds:
        for i in range(runs):
            jobs.append((k, dict(seed=r.randrange(1 << 20), threads=r.choice((1, 2, 4)), senders=r.choice((1, 2, 3)), per=r.choice((30, 60, 120)), refuse=r.choice((0, 5, 20)),
                                 lose=r.choice((0, 5, 20)), max=r.choice((0, 1, 5, 100)), window=r.choice((1, 4, 16)))))

    def one(kind, p):
        args = ['%s=%s' % kv for kv in p.items()]
        label = 'reliable datagrams %s %s' % (kind, ' '.join(args))
        rc, out, err = vlib.sh([exes['relloop-' + kind]] + args, timeout=300)
        if rc != 0:
            c.violation('%s: the program %s' % (label, 'never ended' if rc is None else 'ended with %s' % rc), {'args': args, 'err': err[-2000:]})
            return []
        res = []
        for d in map(json.loads, out.splitlines()):
            if 'bad' in d:
                c.violation('%s: %s' % (label, d['bad']), {'args': args})
                return []
            res.append(('%s from %d to %d' % (label, d['d'] // 8, d['d'] % 8), d['ev'] + [{'e': 'end', 'whole': True}]))
        return res
    traces = []
    for i in range(0, len(jobs), 8):
        for t in c.parallel([(lambda j=j: one(*j)) for j in jobs[i:i + 8]]):
            traces.extend(t)
        if c.violations:
            return
    c.note('reliable datagrams over a lossy network', {'runs': len(jobs), 'directions': len(traces), 'events': sum(len(t[1]) for t in traces)})
    parts = [traces[k::4] for k in range(4)]
    for label, matched, why, evs in sum(c.parallel([(lambda t=t: c.validate_many('TraceLoop', loop.CFG, t, what='history of reliable datagrams')) for t in parts if t]), []):
        c.violation('%s: event %s is not allowed' % (label, matched), {'events': evs[max(0, (matched or 0) - 60):(matched or 0) + 3], 'why': why})
