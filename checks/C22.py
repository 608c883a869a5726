import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

POL = {'default': 0, 'stop': 1, 'continue': 2}
TRAFFIC = ['hb', 'msg', 'hbmsg', 'part', 'send']


def configs(thorough):
    C = {}

    def add(name, client=False, auto=False, always=False, frame=0, policy='default', confs=('<<1, 2>>', '<<2, 1>>', '<<2, 2>>'), ops=()):
        C[name] = (dict(Client=client, Auto=auto, Always=always, HasHb=frame != 3), policy, confs, list(ops), frame)
    add('server, started by hand', ops=['starthb', 'stophb', 'check', 'force', 'msg', 'send'])
    add('server, automatic', auto=True, ops=['force'] + TRAFFIC)
    add('server, continuing', auto=True, policy='continue', ops=TRAFFIC)
    add('server, stopping', policy='stop', confs=('<<2, 2>>',), ops=['starthb', 'check', 'force'] + TRAFFIC)
    add('client, automatic', client=True, auto=True, ops=['force', 'hb', 'msg', 'send'])
    add('client, started by hand', client=True, confs=('<<2, 1>>', '<<1, 3>>'), ops=['starthb', 'stophb', 'check', 'force', 'hb', 'send'])
    add('always', auto=True, always=True, ops=TRAFFIC)
    add('prefix and suffix', auto=True, frame=1, ops=TRAFFIC)
    add('wrapped buffers', auto=True, frame=2, ops=TRAFFIC)
    add('fixed length', auto=True, frame=3, ops=TRAFFIC)
    add('no copies', auto=True, frame=4, ops=TRAFFIC)
    add('flexible', auto=True, frame=5, client=True, ops=TRAFFIC)
    if thorough:
        add('server, longer', confs=('<<2, 3>>', '<<3, 2>>', '<<1, 4>>'), ops=['starthb', 'stophb', 'check'] + TRAFFIC)
        add('client, continuing', client=True, auto=True, policy='continue', ops=['starthb', 'stophb', 'check', 'force'] + TRAFFIC)
        add('client, all', client=True, ops=['starthb', 'stophb', 'check', 'force'] + TRAFFIC)
    return C


PAIRS = [(1, 3, 0), (2, 3, 1), (3, 2, 0), (2, 4, 2)]


def run(c):
    cf = configs(c.thorough)

    def defs(v):
        return ['FRAME=%d' % v[4]] + (['CLIENT'] if v[0]['Client'] else []) + (['AUTO'] if v[0]['Auto'] else []) + (['ST_ASIO_ALWAYS_SEND_HEARTBEAT'] if v[0]['Always'] else [])

    def cfg(v, emit):
        return ('CONSTANTS %s Policy = "%s" Ops = {%s} Confs <- MCConfs EMIT = %s\nSPECIFICATION Spec\nINVARIANTS TypeOK%s\nPROPERTIES Fresh\nCHECK_DEADLOCK FALSE\n'
                % (' '.join('%s = %s' % (k, str(x).upper()) for k, x in v[0].items()), v[1], ', '.join('"%s"' % o for o in v[3]), emit, '' if {'starthb', 'stophb'} & set(v[3]) else ' Detected Lively'),
                {'MCHeartbeat': 'EXTENDS Heartbeat\nMCConfs == {%s}' % ', '.join(v[2])})

    def graphs():
        fns = [(lambda n=n, v=v: c.graph('MCHeartbeat', cfg(v, 'TRUE')[0], what='heartbeats, ' + n, mods=cfg(v, 0)[1])) for n, v in cf.items()]
        for p in PAIRS + ([(3, 3, 2), (2, 5, 4)] if c.thorough else []):
            fns.append(lambda p=p: c.model_check('HeartbeatPair', 'SPECIFICATION Spec\nCONSTANTS I = %d M = %d D = %d\nINVARIANTS NotWhileAlive InTime\nCHECK_DEADLOCK FALSE\n' % p, what='two ends, interval %d, absence %d, delay %d' % p))
        res = []
        for i in range(0, len(fns), 6):
            res += c.parallel(fns[i:i + 6])
        return dict(zip(cf, res))

    def builds():
        u = {' '.join(defs(v)): defs(v) for v in cf.values()}
        return c.build_all({k: dict(src='heart.cpp', std='c++14', defines=d) for k, d in u.items()})
    exes, gs = c.parallel([builds, graphs])

    def enc(op):
        return ' '.join([op['k']] + [str(x) for x in op['a']])

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        for f, want in op['res'].items():
            if f in ('connecting', 'on', 'writing') and post['ph'] == 'closing':
                continue
            have = got[f]
            if f == 'log':  # the close of a link under way
                want, have = [[x for x in l if x != 'close'] for l in (want, have)]
            if have != want:
                return '%s: expected %s, got %s' % (f, want, have)
    for n, v in cf.items():
        g = gs[n]
        walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else 1500)
        walks += g.random_walks(c.rnd, 1000 if c.thorough else 100, 80)
        c.note('heartbeats', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        c.replay([exes[' '.join(defs(v))], str(POL[v[1]])], g, walks, enc, cmp, what='heartbeats, ' + n)


vlib.main('C22', 'model_checking', run)
