"""C01 and C02: the configurations of Framing.tla and their replay"""
import vlib


def kinds_text(kinds):
    return '<<%s>>' % ', '.join('[n |-> %d, body |-> %d, bad |-> %d]' % (k['n'], k['body'], k['bad']) for k in kinds)


def K(desc, n, body=0, bad=0):
    return {'desc': desc, 'n': n, 'body': body, 'bad': bad}


def head_kinds(head, limit, bodies):
    return [K('h,0', head)] + [K('v,%d' % b, head + b, b) for b in bodies]


def head_bad(head, limit, claims):
    return [K('l,%d,%d' % (c, head + 3), head + 3, 0, head) for c in claims]


def ps_kinds(pre, suf, bodies):
    m = len(pre) + len(suf)
    return [K('h,0', m)] + [K('v,%d' % b, m + b, b) for b in bodies]


def ps_bad(pre, suf, limit):
    # the position must not be the empty prefix; the bytes after the wrong prefix do not matter
    return [K('p,%d,%d' % (i, len(pre) + 2), len(pre) + 2, 0, len(pre)) for i in range(len(pre))] + [K('s,%d' % limit, limit, 0, limit)]


def configs(thorough, bad):
    """name -> (build name, driver argv, kinds, cuts or None, max frames per segment)"""
    L = {}
    new = 3
    h2 = head_kinds(2, 10, [1, 3, 8]) + (head_bad(2, 10, [0, 1, 11, 65535]) if bad else [])
    h4 = head_kinds(4, 12, [1, 8]) + (head_bad(4, 12, [0, 1, 3, 13, 65536, 4294967295]) if bad else [])
    for u in ('unpacker', 'unpacker_bb', 'unpacker2'):
        for st in (1, 0):
            L['%s/%d' % (u, st)] = ('f10', [u, str(st)], h2, None, new)
    L['noncopy/1'] = ('f10', ['noncopy', '1'], h2, None, new)
    L['unpacker/scattered'] = ('f10s', ['unpacker', '1'], h2, None, new)
    L['noncopy/scattered'] = ('f10s', ['noncopy', '1'], h2, None, new)
    for u in ('unpacker', 'noncopy'):
        L[u + '/huge'] = ('f12h', [u, '1'], h4, None, new)
    fl = 4060
    f2 = head_kinds(2, fl, [1, 1995, 3998, 3999, fl - 2]) + (head_bad(2, fl, [1, fl + 1]) if bad else [])
    for u in ('flexible', 'flexible_str', 'unpacker2f'):
        for st in (1, 0):
            L['%s/%d' % (u, st)] = ('f4060', [u, str(st)], f2, [1, 2, 3, 1996, 1997, 1998, 3999, 4000, 4001, fl - 1], 3 if thorough else 2)
    for pre, suf in (('-', '\n'), ('ab', '\r\n'), ('ab', 'abc'), ('begin', 'end')):
        p = '' if pre == '-' else pre
        m = len(p) + len(suf)
        ks = ps_kinds(p, suf, sorted({1, 10 - m}) if m < 9 else [1, 2]) + (ps_bad(p, suf, 10) if bad else [])
        for st in (1, 0):
            L['ps %r %r/%d' % (p, suf, st)] = ('f10', ['ps', str(st), pre, suf], ks, None, new)
    L['ps/scattered'] = ('f10s', ['ps', '1', 'ab', '\r\n'], ps_kinds('ab', '\r\n', [1, 6]) + (ps_bad('ab', '\r\n', 10) if bad else []), None, new)
    if not bad:
        for n in (1, 4, 10):
            L['fixed %d' % n] = ('f10', ['fixed', '1', str(n)], [K('v,%d' % n, n, n)], None, 4)
        L['fixed/scattered'] = ('f10s', ['fixed', '1', '4'], [K('v,4', 4, 4)], None, 4)
        for b in ('f10', 'f10s'):
            L['stream/' + b] = (b, ['stream', '1'], [K('v,1', 1, 1), K('v,9', 9, 9), K('v,10', 10, 10)], None, 2)
    return L


BUILDS = {'f10': dict(src='framing.cpp', defines=['ST_ASIO_MSG_BUFFER_SIZE=10'], std='c++14'),
          'f10s': dict(src='framing.cpp', defines=['ST_ASIO_MSG_BUFFER_SIZE=10', 'ST_ASIO_SCATTERED_RECV_BUFFER', 'ST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>'], std='c++14'),
          'f12h': dict(src='framing.cpp', defines=['ST_ASIO_MSG_BUFFER_SIZE=12', 'ST_ASIO_HUGE_MSG'], std='c++14'),
          'f4060': dict(src='framing.cpp', defines=['ST_ASIO_MSG_BUFFER_SIZE=4060'], std='c++14')}


def run(c, bad):
    cf = configs(c.thorough, bad)
    graphs = {}

    def key(v):
        return (kinds_text(v[2]), tuple(v[3] or ()), v[4])

    def build():
        return c.build_all(BUILDS)

    def graphs_all():
        todo = {}
        for n, v in cf.items():
            todo.setdefault(key(v), n)

        def one(k, n):
            v = cf[n]
            cuts = '0..%d' % (max(x['n'] for x in v[2])) if v[3] is None else '{' + ', '.join(map(str, v[3])) + '}'
            cfg = ('CONSTANTS\nKinds <- MCKinds\nCuts <- MCCuts\nMaxNew = %d\nEMIT = TRUE\nSPECIFICATION Spec\nINVARIANTS TypeOK BadIsReported\nCHECK_DEADLOCK FALSE\n' % v[4])
            graphs[k] = c.graph('MCFraming', cfg, what=n, mods={'MCFraming': 'EXTENDS Framing\nMCKinds == %s\nMCCuts == %s' % (kinds_text(v[2]), cuts)})
        items = list(todo.items())
        for i in range(0, len(items), 4):
            c.parallel([(lambda k=k, n=n: one(k, n)) for k, n in items[i:i + 4]])
    exes = c.parallel([build, graphs_all])[0]
    for n, v in cf.items():
        g = graphs[key(v)]
        kinds = v[2]
        # quick: every edge of the small graphs; walks are shared by configurations with the same graph
        walks, cov = g.walks(c.rnd, maxlen=40, limit=None if c.thorough else 1500)
        c.note('framing', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})

        def enc(op):
            return ' '.join([str(op['off']), str(op['stop'])] + [kinds[k - 1]['desc'] for k in op['news']])

        def seglen(op):
            t = ([op['cur']] if op['cur'] else []) + op['news']
            return sum(kinds[k - 1]['n'] for k in t[:-1]) + op['stop'] - op['off']

        def cmp(op, post, got):
            if got.get('bad'):
                return got['bad']
            if v[1][0] == 'stream':
                return None if sum(got['msgs']) == seglen(op) and not got['err'] else 'a stream of %d bytes was delivered as %s' % (seglen(op), got)
            want = op['res']
            return None if got == want else 'expected %s' % want
        c.replay([exes[v[0]]] + v[1], g, walks, enc, cmp, what=n)
    c.assumptions += ['segments up to 3 frames long cut at every byte offset (flexible unpacker: at selected offsets around its 4000 byte buffer); message limit 10 or 12 bytes, so that all boundaries are within reach']
