"""replay of LinkLife.tla in real client and server sockets; shared by C10, C11, C12 and C18, each of which judges its own observables"""
ALL = ['start', 'reset', 'force', 'graceful', 'setrec', 'eof', 'bad', 'msg', 'refuse', 'half', 'send', 'werr', 'hold']


def configs(thorough):
    C = {}

    def add(name, client, n, ops, delays=(-1, 0, 30), track=True):
        C[name] = (client, dict(Client=str(client).upper(), Track=str(track).upper(), N=n, Delays='<-', Ops='{%s}' % ', '.join('"%s"' % o for o in ops)), delays)
    add('client, reconnecting', True, 1, ['start', 'force', 'graceful', 'setrec', 'eof', 'hold'])
    add('client, traffic', True, 2, ['start', 'force', 'eof', 'bad', 'msg', 'refuse', 'half', 'send', 'werr'], (-1, 20))
    add('client, recycled', True, 1, ['start', 'reset', 'force', 'graceful', 'eof', 'msg', 'refuse', 'half', 'send'], (-1,))
    add('client, cannot bind', True, 1, ['start', 'reset', 'force', 'graceful', 'setrec', 'eof', 'nobind', 'send'])
    add('server', False, 2, ['start', 'reset', 'force', 'graceful', 'eof', 'bad', 'msg', 'half', 'send', 'werr', 'hold'])
    add('server, refusing', False, 1, ['start', 'reset', 'force', 'graceful', 'eof', 'msg', 'refuse', 'send', 'hold'])
    add('client, raced', True, 1, ['start', 'eof', 'send', 'race', 'setrec', 'hold'], (-1, 20))
    add('server, raced', False, 1, ['start', 'reset', 'graceful', 'eof', 'send', 'race', 'hold'])
    add('client, delayed close', True, 1, ['start', 'reset', 'force', 'setrec', 'eof', 'msg', 'refuse', 'half', 'send', 'hold'], (-1,), track=False)
    add('server, delayed close', False, 1, ['start', 'reset', 'force', 'graceful', 'eof', 'msg', 'refuse', 'half', 'send', 'hold'], (-1,), track=False)
    if thorough:
        add('client, all', True, 2, ALL)
        add('server, all', False, 2, ALL)
    return C


CLOSERS = ('force', 'graceful', 'broken', 'bad', 'wait')


def replay(c, fields, names=None, limit=2500):
    cf = {k: v for k, v in configs(c.thorough).items() if names is None or k in names}

    def gr():
        fns = [(lambda n=n, v=v: c.graph('MCLinkLife', 'CONSTANTS %s Delays <- MCDelays EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n'
                                         % ' '.join('%s = %s' % kv for kv in v[1].items() if kv[0] != 'Delays'), what='life, ' + n,
                                         mods={'MCLinkLife': 'EXTENDS LinkLife\nMCDelays == {%s}' % ', '.join(map(str, v[2]))})) for n, v in cf.items()]
        fns += [(lambda n=n, v=v: c.model_check('MCLinkLife', 'CONSTANTS %s Delays <- MCDelays EMIT = FALSE\nSPECIFICATION Spec\nINVARIANT TypeOK\nPROPERTIES Closes Retries\nCHECK_DEADLOCK FALSE\n'
                                                % ' '.join('%s = %s' % kv for kv in v[1].items() if kv[0] != 'Delays'), what='liveness of ' + n,
                                                mods={'MCLinkLife': 'EXTENDS LinkLife\nMCDelays == {%s}' % ', '.join(map(str, v[2]))})) for n, v in cf.items() if n in ('client, reconnecting', 'client, cannot bind', 'server', 'client, delayed close')]
        res = []
        for i in range(0, len(fns), 6):
            res += c.parallel(fns[i:i + 6])
        return dict(zip(cf, res))
    exes, graphs = c.parallel([lambda: c.build_all({'lifec': dict(src='life.cpp', std='c++14'), 'lifes': dict(src='life.cpp', std='c++14', defines=['SERVER']),
                                                         'lifecd': dict(src='life.cpp', std='c++14', defines=['ST_ASIO_DELAY_CLOSE=1']),
                                                         'lifesd': dict(src='life.cpp', std='c++14', defines=['SERVER', 'ST_ASIO_DELAY_CLOSE=1'])}), gr])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else limit)
        walks += g.random_walks(c.rnd, 1500 if c.thorough else 200, 80)
        c.note('life', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def enc(op):
            k, a, r = op['k'], op['a'], op['res']
            if k == 'wait':
                return 'wait %d %d %s' % (a['d'], a['tw'], a['w'])
            return ' '.join([{'reset': 'recycle'}.get(k, k)] + [str(int(x)) if isinstance(x, bool) else str(x) for x in a])

        def cmp(op, post, got):
            if got.get('bad') and 'bad' in fields:
                return got['bad']
            want, closing = op['res'], post['ph'] == 'closing'
            for f in fields:
                if f == 'bad' or f == 'log':
                    continue
                if f in ('broken', 'shutting', 'reading', 'writing') and closing:
                    continue
                if f == 'broken' and post['ph'] in ('wait', 'connecting', 'delay'):
                    continue
                if got[f] != want[f]:
                    return '%s: expected %s, got %s' % (f, want[f], got[f])
            if 'log' in fields:
                # whether a local shutdown is also reported as a receive error is not prescribed; the order of the reports of one event neither
                may = {x for x in want['may'] if x not in want['log']}
                opt = lambda l: sorted(x for x in l if x not in may and not (x == 'recv_error' and op['k'] != 'broken'))
                if any(got['log'].count(x) > 1 for x in may):
                    return 'callbacks came twice: %s' % got['log']
                if opt(got['log']) != opt(want['log']):
                    return 'callbacks: expected %s, got %s' % (want['log'], got['log'])
                if 'close' in got['log'] and got['log'][-1] != 'close':
                    return 'callbacks after the close notification: %s' % got['log']
        c.replay([exes[('lifec' if v[0] else 'lifes') + ('' if v[1]['Track'] == 'TRUE' else 'd')]], g, walks, enc, cmp, what='life, ' + n)
