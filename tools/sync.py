"""threads which send and receive synchronously under a seeded scheduler (harness/syncmt.cpp); every history is validated against TraceSync.tla"""
import json

CFG = 'SPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'
LIBS = ['-ldl']
BUILDS = {
    'server': [],
    'server told': ['ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY', 'ST_ASIO_SYNC_DISPATCH'],
    'server shrinking': ['ST_ASIO_SHRINK_SEND_BUFFER', 'ST_ASIO_DISPATCH_BATCH_MSG'],
    'server passive': ['ST_ASIO_PASSIVE_RECV'],
    'server delayed': ['ST_ASIO_DELAY_CLOSE=1'],
    'client': ['CLIENT'],
    'client told': ['CLIENT', 'ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY'],
    'client passive': ['CLIENT', 'ST_ASIO_PASSIVE_RECV'],
}


def run(c, kind, names, runs):
    """kind: send, recv or both"""
    import vlib
    exes, traces, parts = {}, [], []

    def some(n, seeds):
        """one process after the other: a history which hangs ends its process"""
        left, res = list(seeds), []
        while left:
            rc, out, err = vlib.sh([exes[n]], timeout=300, stdin=''.join('%d %s\n' % s for s in left).encode())
            lines = (out if isinstance(out, str) else out.decode()).splitlines()
            for s, line in zip(left, lines):
                d = json.loads(line)
                label = 'sync %s, seed %d %s' % ((n,) + s)
                if 'bad' in d:
                    c.violation('%s: %s' % (label, d['bad']), d['ev'])
                res.append((label, d['ev']))
            if rc != 0 or not lines:
                c.violation('sync %s, seed %d %s: the program %s' % ((n,) + left[min(len(lines), len(left) - 1)] + ('never ended' if rc is None else 'ended with %s' % rc,)), {'err': err[-2000:]})
                break
            left = left[len(lines):]
        return res

    def one(n):
        exes[n] = c.build('sync-' + n.replace(' ', '-'), 'syncmt.cpp', defines=BUILDS[n], std='c++14', libs=LIBS)
        base = c.rnd.randrange(1 << 20)
        seeds = [(base + i, kind if i % 4 else 'both') for i in range(runs)]
        parts.append(some(n, seeds))
    c.parallel([(lambda n=n: one(n)) for n in names])
    for label, matched, why, evs in sum(c.parallel([(lambda t=t: c.validate_many('TraceSync', CFG, t, what='synchronous calls')) for t in parts if t]), []):
        at = evs[matched - 1] if matched is not None and 0 < matched <= len(evs) else None
        c.violation('%s: the history does not belong to the specification, it stops at %s' % (label, json.dumps(at)), evs)
    c.sample({'history': parts[0][0][0], 'events': parts[0][0][1][:30]})
