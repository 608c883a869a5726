"""replay of LinkSend.tla in the real socket; shared by C05, C06, C07, C08 and C26, each of which judges its own observables"""
ALL = ['start', 'send', 'send2', 'send3', 'empty', 'drain', 'part', 'werr', 'pop', 'popall']


def send_configs(thorough):
    """name -> (build, limit, constants)"""
    C = {}

    def add(name, build, lens, n, limit, batch, shrink=-1, notify='', parts=(1, 2), ops=ALL):
        C[name] = (build, limit, shrink, dict(Lens='{%s}' % ', '.join(map(str, lens)), N=n, Limit=limit, Batch=batch, Shrink=shrink, Notify='"%s"' % notify,
                                              Parts='{%s}' % ', '.join(map(str, parts)), Ops='{%s}' % ', '.join('"%s"' % o for o in ops)))
    x = 4 if thorough else 3
    add('plain', 's', [2, 3], x, 5, 65536)
    add('limit 1', 's', [1, 4], x, 1, 65536, ops=['start', 'send', 'drain', 'pop', 'empty'])
    add('one at once', 'one', [2, 3], x, 6, 0, notify='one')
    add('notify', 'batch', [2, 3], 3, 100, 65536, notify='batch', ops=['start', 'send', 'send2', 'drain', 'werr', 'popall'])
    add('resending', 's', [2, 3], 3, 5, 65536, ops=['start', 'send', 'send2', 'drain', 'part', 'resend'])
    add('notify, taken', 'batcht', [2, 3], 3, 100, 65536, notify='batch', ops=['start', 'send', 'send2', 'drain', 'werr'])
    add('shrink a third', 'shrink', [1, 3], 4, 4, 65536, shrink=-2, ops=['start', 'send', 'empty', 'drain', 'pop'])
    add('shrink 2', 'shrink', [1, 3], 4, 4, 65536, shrink=2, ops=['start', 'send', 'send2', 'drain', 'popall'])
    add('shrink 0', 'shrink', [1, 3], 3, 4, 65536, shrink=0, ops=['start', 'send', 'drain'])
    add('shrink all', 'shrink', [1, 3], 4, 4, 65536, shrink=100, ops=['start', 'send', 'drain', 'pop'])
    add('big', 's', [30000, 40000, 70000], x, 100000, 65536, parts=(65536,), ops=['start', 'send', 'drain', 'part', 'popall'])
    return C


N_ = ['ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY']
BUILDS = {'s': dict(src='linksend.cpp', std='c++14'),
          'one': dict(src='linksend.cpp', std='c++14', defines=N_ + ['ST_ASIO_WANT_MSG_SEND_NOTIFY']),
          'batch': dict(src='linksend.cpp', std='c++14', defines=N_ + ['ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY']),
          'batcht': dict(src='linksend.cpp', std='c++14', defines=N_ + ['ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY', 'TAKE']),
         'shrink': dict(src='linksend.cpp', std='c++14', defines=['ST_ASIO_SHRINK_SEND_BUFFER'])}


def send_replay(c, fields, names=None, limit=2500, extra_builds=None):
    cf = {k: v for k, v in send_configs(c.thorough).items() if names is None or k in names}
    builds = {k: v for k, v in BUILDS.items() if k in {x[0] for x in cf.values()}}
    builds.update(extra_builds or {})

    def gr():
        fns = [(lambda n=n, v=v: c.graph('MCLinkSend', 'CONSTANTS %s Shrink <- MCShrink EMIT = TRUE\nSPECIFICATION Spec\nINVARIANTS NoDup Bounded NothingLeft\nCHECK_DEADLOCK FALSE\n'
                                         % ' '.join('%s = %s' % kv for kv in v[3].items() if kv[0] != 'Shrink'), what=n, mods={'MCLinkSend': 'EXTENDS LinkSend\nMCShrink == %d' % v[3]['Shrink']})) for n, v in cf.items()]
        res = []
        for i in range(0, len(fns), 5):
            res += c.parallel(fns[i:i + 5])
        return dict(zip(cf, res))
    exes, graphs = c.parallel([lambda: c.build_all(builds), gr])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else limit)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 200, 80)
        c.note('sending', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def ids(op):
            r = op['res']
            return ' '.join(map(str, r['sent'] or r['err'] or r['gone'] or r['popped']))

        def enc(op):
            k, a = op['k'], op['a']
            if k == 'empty':
                return 'empty %s %d %d ; %s' % (c.rnd.choice(['direct', 'directm', 'native']), a['ovf'], a['prior'], ids(op))
            if k == 'send':
                ms = a['ms']
                if len(ms) > 1:
                    f = ['directl', 'nativel'] + (['native2c', 'native2m'] if len(ms) == 2 else [])
                    if ms[0]['len'] == 2 and sum(m['len'] for m in ms) <= 4000:
                        f += (['qm', 'qc'] + (['qsafe'] if a['ovf'] else []) if len(ms) == 2 else ['q2m', 'q2c', 'ql']) * 2
                else:
                    f = ['direct', 'directm', 'nativem', 'nativec'] + (['native'] if ms[0]['len'] <= 4000 else []) + (['native2'] if 1 < ms[0]['len'] <= 4000 else [])
                    if 2 < ms[0]['len'] <= 4000:
                        f += ['p', 'p2'] * 2
                    if a['ovf']:
                        f += ['safen']
                return 'send %s %d %d %s ; %s' % (c.rnd.choice(f), a['ovf'], a['prior'], ' '.join('%d:%d' % (m['id'], m['len']) for m in ms), ids(op))
            if k == 'resend':
                return 'resend %d ; %s' % (a['prior'], ids(op))
            if k == 'drain':
                return 'drain %d ; %s' % (a[0], ids(op))
            return k + ' ; ' + ids(op)

        def cmp(op, post, got):
            if got.get('bad') and 'bad' in fields:
                return got['bad']
            want = op['res']
            for f in fields:
                if f == 'bad':
                    continue
                if f == 'overlap':
                    if got['overlap']:
                        return 'a second operation was started on the transport while one was outstanding'
                    continue
                if f == 'left' and want['left'] > 60000:
                    continue
                if f == 'sending':
                    if got['sending'] != want['writing']:
                        return 'is_sending() is %s, writing is %s' % (got['sending'], want['writing'])
                    continue
                if f in ('note', 'all') and v[0] not in ('one', 'batch', 'batcht'):
                    continue
                if f == 'all' and v[0] == 'batcht': # the messages are gone, an empty one stands for them
                    if got[f] != [-1] * len(want[f]):
                        return 'all: expected %s, got %s' % (want[f], got[f])
                    continue
                if got[f] != want[f]:
                    return '%s: expected %s, got %s' % (f, want[f], got[f])
        c.replay([exes[v[0]], str(v[1]), str(v[2])], g, walks, enc, cmp, what='sending, ' + n)
    return exes


def send_schedules(c, exe_name='mt', what='concurrent senders'):
    """schedules from Wakeup.tla for the real threads; every recorded history is checked by TLC against TraceSend.tla"""
    import json
    import vlib

    def cfg(nsend, per, early, emit, live):
        return ('CONSTANTS Senders = {%s} PerSender = %d Workers = {"w1", "w2"} Early = %s EMIT = %s\nSPECIFICATION Spec\nINVARIANTS OneWrite NothingLeft\n%sCHECK_DEADLOCK FALSE\n'
                % (', '.join('"s%d"' % (i + 1) for i in range(nsend)), per, str(early).upper(), str(emit).upper(), 'PROPERTY Delivered\n' if live else ''))
    jobs = [('2x1', 2, 1, False), ('2x1 early', 2, 1, True), ('1x2 early', 1, 2, True)] + ([('2x2', 2, 2, False), ('2x2 early', 2, 2, True)] if c.thorough else [('1x3', 1, 3, False)])
    builds, res = c.parallel([lambda: c.build_all({exe_name: dict(src='sendmt.cpp', std='c++14'), exe_name + '1': dict(src='sendmt.cpp', std='c++14', defines=['ST_ASIO_WANT_MSG_SEND_NOTIFY'])}),
                              lambda: c.parallel([(lambda j=j: c.graph('Wakeup', cfg(j[1], j[2], j[3], True, False), what='wake-up ' + j[0])) for j in jobs] +
                                                 [(lambda j=j: c.model_check('Wakeup', cfg(j[1], j[2], j[3], False, True), what='liveness ' + j[0])) for j in jobs[:3]])])
    lines = []
    for (name, ns, per, early), g in zip(jobs, res):
        walks, cov = g.walks(c.rnd, maxlen=60, limit=3000 if c.thorough else 350)
        walks += g.random_walks(c.rnd, 3000 if c.thorough else 250, 60)
        c.note('schedules', {name: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        for w in walks:
            lines.append('%d %d %d %d 2 %s' % (early, c.rnd.randrange(1000), per, ns, ' '.join({'transport': 't'}.get(t, t) for t in (g.edges[e][1]['k'] for e in w))))
    # the code has more steps than the specification: random schedules of the threads as well
    for _ in range(4000 if c.thorough else 500):
        ns, early = c.rnd.choice((1, 2, 3)), c.rnd.choice((0, 0, 1))
        th = ['s%d' % (i + 1) for i in range(ns)] + ['w1', 'w2', 't'] + (['start'] if early else [])
        wts = [c.rnd.choice((1, 1, 3)) for _ in th]
        lines.append('%d %d %d %d 2 %s' % (early, c.rnd.randrange(1000), c.rnd.choice((1, 2, 3)), ns, ' '.join(c.rnd.choices(th, wts, k=c.rnd.randrange(10, 70)))))

    def go(exe, ls):
        rc, out, err = vlib.sh([exe], timeout=300, stdin=('\n'.join(ls) + '\n').encode())
        ans = out.splitlines()
        traces = []
        for i, l in enumerate(ls):
            if i >= len(ans):
                c.violation(what + ': the driver died or hung', {'schedule': l, 'rc': rc, 'err': err[-500:]})
                return traces
            d = json.loads(ans[i])
            if d.get('bad'):
                c.violation(what + ': ' + d['bad'], {'schedule': l, 'events': d['ev']})
                return traces
            traces.append((l, d['ev']))
        return traces
    n = 6
    parts = [lines[i::n] for i in range(n)]
    out = c.parallel([(lambda i=i: go(builds[exe_name if i % 3 else exe_name + '1'], parts[i])) for i in range(n)])
    for label, matched, why, evs in sum(c.parallel([(lambda t=t: c.validate_many('TraceSend', 'SPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n', t, what='history of concurrent senders')) for t in out if t]), []):
        c.violation('%s: event %s is not allowed' % (what, matched), {'schedule': label, 'why': why, 'events': evs})


# ---------------------------------------------------------------------------------------------------------------- receiving
RB = {'single': [], 'batch': ['ST_ASIO_DISPATCH_BATCH_MSG'], 'sync': ['ST_ASIO_SYNC_DISPATCH'], 'syncbatch': ['ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_DISPATCH_BATCH_MSG'],
      'passive': ['ST_ASIO_PASSIVE_RECV'], 'passivesync': ['ST_ASIO_PASSIVE_RECV', 'ST_ASIO_SYNC_DISPATCH'], 'passivebatch': ['ST_ASIO_PASSIVE_RECV', 'ST_ASIO_DISPATCH_BATCH_MSG']}


def recv_configs(thorough):
    C = {}

    def add(name, build, lens, n, maxread, limit, riv, hiv, ops=('read', 'tick', 'pop', 'popall', 'ask')):
        C[name] = (build, (limit, riv, hiv), dict(Lens='{%s}' % ', '.join(map(str, lens)), N=n, MaxRead=maxread, Limit=limit, RIv=riv, HIv=hiv,
                                                Mode='"%s"' % ('batch' if 'batch' in build else 'single'), Sync=str('sync' in build).upper(), Passive=str('passive' in build).upper(),
                                                Ops='{%s}' % ', '.join('"%s"' % o for o in ops)))
    n = 5 if thorough else 4
    add('single', 'single', [0, 1, 3], n, 2, 4, 3, 2)
    add('single, slow retry', 'single', [1, 2], n, 3, 3, 2, 5, ('read', 'tick', 'popall'))
    add('single, limit 1', 'single', [1], n + 1, 3, 1, 1, 3, ('read', 'tick', 'pop'))
    add('batch', 'batch', [0, 1, 3], n, 2, 4, 3, 2)
    add('batch, slow retry', 'batch', [1, 2], n, 2, 3, 2, 5, ('read', 'tick', 'popall'))
    add('sync', 'sync', [0, 1, 3], n, 2, 4, 3, 2, ('read', 'tick', 'pop'))
    add('syncbatch', 'syncbatch', [1, 3], 4, 2, 4, 3, 2, ('read', 'tick'))
    add('passive', 'passive', [0, 1, 3], n, 2, 4, 3, 2)
    add('passivesync', 'passivesync', [0, 1, 3], n, 2, 4, 3, 2, ('read', 'tick', 'ask', 'popall'))
    add('passivebatch', 'passivebatch', [0, 1, 3], 4, 2, 4, 3, 2, ('read', 'tick', 'ask'))
    return C


def recv_replay(c, fields, names=None, limit=2500, udp=False):
    cf = {k: v for k, v in recv_configs(c.thorough).items() if names is None or k in names}
    if udp:  # a datagram is a message
        cf = {k: (v[0], v[1], dict(v[2], MaxRead=1)) for k, v in cf.items()}
    builds = {'r' + k: dict(src='udprecv.cpp' if udp else 'linkrecv.cpp', std='c++14', defines=RB[k] + (['CONN'] if udp and 'batch' in k else [])) for k in {x[0] for x in cf.values()}}

    def gr():
        fns = [(lambda n=n, v=v: c.graph('LinkRecv', 'CONSTANTS %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANTS NoDup Bounded Resumes Retried\nCHECK_DEADLOCK FALSE\n'
                                         % ' '.join('%s = %s' % kv for kv in v[2].items()), what='receiving, ' + n)) for n, v in cf.items()]
        res = []
        for i in range(0, len(fns), 5):
            res += c.parallel(fns[i:i + 5])
        return dict(zip(cf, res))
    exes, graphs = c.parallel([lambda: c.build_all(builds), gr])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else limit)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 200, 80)
        c.note('receiving', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def enc(op):
            k, a = op['k'], op['a']
            s = ' '.join(map(str, a['s']))
            if k == 'read':
                ids = list(a['ids'])
                return 'read %d %d %s %s' % (a['sj'], len(a['ls']), ' '.join('%d:%d' % (x, ids.pop(0) if x else 0) for x in a['ls']), s)
            return k + ' ' + s

        def cmp(op, post, got):
            if got.get('bad'):
                return got['bad']
            want = op['res']
            for f in fields:
                if f == 'overlap':
                    if got['overlap']:
                        return 'a second operation was started on the transport while one was outstanding'
                elif got[f] != want[f]:
                    return '%s: expected %s, got %s' % (f, want[f], got[f])
        c.replay([exes['r' + v[0]]] + list(map(str, v[1])), g, walks, enc, cmp, what='receiving, ' + n)


def recv_schedules(c, what='concurrent receiving'):
    """schedules from Dispatch.tla for the real threads; every recorded history is checked by TLC against TraceRecv.tla"""
    import json
    import vlib

    def cfg(n, ref, emit, live):
        return ('CONSTANTS N = %d Refusals = %d Workers = {"w1", "w2"} EMIT = %s\nSPECIFICATION Spec\nINVARIANTS InOrder OneAtATime NeverEarly\n%sCHECK_DEADLOCK FALSE\n'
                % (n, ref, str(emit).upper(), 'PROPERTY Delivered\n' if live else ''))
    jobs = [(2, 1), (3, 2)] + ([(4, 3)] if c.thorough else [])
    builds, res = c.parallel([lambda: c.build_all({'rmt': dict(src='recvmt.cpp', std='c++14'), 'rmtb': dict(src='recvmt.cpp', std='c++14', defines=['ST_ASIO_DISPATCH_BATCH_MSG'])}),
                              lambda: c.parallel([(lambda j=j: c.graph('Dispatch', cfg(j[0], j[1], True, False), what='dispatching %dx%d' % j)) for j in jobs] +
                                                 [lambda: c.model_check('Dispatch', cfg(3, 2, False, True), what='liveness of dispatching')])])
    lines = []
    for (n, ref), g in zip(jobs, res):
        walks, cov = g.walks(c.rnd, maxlen=60, limit=3000 if c.thorough else 300)
        walks += g.random_walks(c.rnd, 2000 if c.thorough else 100, 60)
        c.note('dispatch schedules', {'%dx%d' % (n, ref): {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        for w in walks:
            lines.append('%d %d 2 %d %d %s' % (c.rnd.randrange(100000), n + 2, c.rnd.choice((1, 2, 4)), c.rnd.choice((1, 3, 50)), ' '.join(g.edges[e][1]['k'] for e in w)))
    for _ in range(4000 if c.thorough else 600):
        th = ['w1', 'w2', 'r', 'v']
        wts = [4, c.rnd.choice((0, 2, 4)), c.rnd.choice((1, 3)), c.rnd.choice((0, 1, 1))]
        lines.append('%d %d 2 %d %d %s' % (c.rnd.randrange(100000), c.rnd.randrange(1, 9), c.rnd.choice((1, 2, 4)), c.rnd.choice((1, 3, 50)), ' '.join(c.rnd.choices(th, wts, k=c.rnd.randrange(10, 90)))))

    def go(exe, ls):
        rc, out, err = vlib.sh([exe], timeout=300, stdin=('\n'.join(ls) + '\n').encode())
        ans = out.splitlines()
        traces = []
        for i, l in enumerate(ls):
            if i >= len(ans):
                c.violation(what + ': the driver died or hung', {'schedule': l, 'rc': rc, 'err': err[-500:]})
                return traces
            d = json.loads(ans[i])
            if d.get('bad'):
                c.violation(what + ': ' + d['bad'], {'schedule': l, 'events': d['ev']})
                return traces
            traces.append((l, d['ev']))
        return traces
    n = 6
    parts = [lines[i::n] for i in range(n)]
    out = c.parallel([(lambda i=i: go(builds['rmt' if i % 3 else 'rmtb'], parts[i])) for i in range(n)])
    for label, matched, why, evs in sum(c.parallel([(lambda t=t: c.validate_many('TraceRecv', 'SPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n', t, what='history of concurrent receiving')) for t in out if t]), []):
        c.violation('%s: event %s is not allowed' % (what, matched), {'schedule': label, 'why': why, 'events': evs})
