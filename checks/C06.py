import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import json
from collections import deque
import vlib, link, loop

CFG = 'CONSTANTS How = {%s} Batch = %d M = %d K = %d Full = 3 EMIT = TRUE\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
SAY = {'prior': 'a priority send between the pieces of a message queued by the std::string, two messages or list forms of send_msg splits it on the wire',
       'pop': 'pop_first_pending_send_msg takes only the head or one part of a message queued by the std::string, two messages or list forms of send_msg',
       'discard': 'shrinking the send buffer discards only the head or some parts of a message queued by the std::string, two messages or list forms of send_msg'}


def pieces(c, exes):
    """messages which are queued in pieces: always whole as long as nothing is put between the pieces; what happens otherwise is a recorded finding"""
    def enc(op, k):
        a = op['a']
        if op['k'] == 'send':
            m, ks, p = a
            f = 'native' if ks == 1 else c.rnd.choice(['qm', 'qc'] if ks == 2 else ['q2m', 'q2c', 'ql'])
            return 'send %s 0 %d %s' % (f, p, ' '.join('%d:2' % (m * 10 + i + 1) for i in range(ks)))
        return 'drain %d ; %s' % (2 * len(a), ' '.join(str(x[0] * 10 + x[1]) for x in a)) if op['k'] == 'drain' else 'pop ; %d' % (a[0] * 10 + a[1])

    def want(op):
        return {'sent': [x[0] * 10 + x[1] for x in op['a']] if op['k'] == 'drain' else [], 'popped': [op['a'][0] * 10 + op['a'][1]] if op['k'] == 'pop' else []}

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        for f, x in want(op).items():
            if got[f] != x:
                return '%s: expected %s, got %s' % (f, x, got[f])
    for build, batch in (('one', 1), ('s', 100)):
        for k in (2, 3):
            c.model_check('Pieces', (CFG % ('', batch, 4, k)).replace('EMIT = TRUE', 'EMIT = FALSE').replace('CHECK', 'INVARIANT Whole\nCHECK'), what='pieces stay together')
            g = c.graph('Pieces', CFG % ('', batch, 4, k), what='pieces')
            walks, cov = g.walks(c.rnd, maxlen=30)
            c.replay([exes[build], '100000', '-1'], g, walks, lambda op: enc(op, k), cmp, what='messages of several pieces, ' + build, pre=['start'])
    for how in SAY:
        k, build = 2, 'shrink' if how == 'discard' else 'one'
        batch = 100 if how == 'discard' else 1
        g = c.graph('Pieces', CFG % ('"%s"' % how, batch, 4, k), what='pieces, ' + how)
        pred, q = {i: None for i in g.inits}, deque(g.inits)
        while q:                         # the shortest history which splits a message
            s = q.popleft()
            if g.state[s]['split']:
                break
            for e in g.out.get(s, ()):
                if g.edges[e][2] not in pred:
                    pred[g.edges[e][2]] = e
                    q.append(g.edges[e][2])
        path = []
        while pred[s] is not None:
            path.append(g.edges[pred[s]][1])
            s = g.edges[pred[s]][0]
        path.reverse()
        rc, out, err = vlib.sh([exes[build], '6' if how == 'discard' else '100000', '1' if how == 'discard' else '-1'], timeout=60,
                               stdin=('\n'.join(['reset', 'start'] + [enc(op, k) for op in path]) + '\n').encode())
        got = [json.loads(x) for x in out.splitlines()][2:]
        if len(got) == len(path) and all(x[f] == v for op, x in zip(path, got) for f, v in want(op).items()):
            if not c.known_finding('pieces-' + how, SAY[how]):
                c.violation(SAY[how], {'history': list(zip(path, got))})
        else:
            c.note('pieces', {how: 'the finding does not reproduce'})


def run(c):
    q = not c.thorough
    exes = link.send_replay(c, ['sent', 'err', 'ret', 'bad'], names=['plain', 'one at once', 'resending', 'notify, taken', 'shrink a third'] if q else None, limit=500 if q else None)
    c.parallel([lambda: link.recv_replay(c, ['offers', 'sync'], names=['single', 'batch', 'passivesync'] if q else None, limit=400 if q else None), lambda: pieces(c, exes)])
    if not c.violations:
        loop.run(c, loop.PLAIN, 6 if q else 60)
    c.assumptions += ['over the loopback network the interleavings are those of real time', 'the second and later connections of a reconnecting client may begin with a gap']


vlib.main('C06', 'model_checking', run)
