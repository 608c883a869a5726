import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

DEF = ['PREP=2']
AVOID = 'ST_ASIO_AVOID_AUTO_STOP_SERVICE'


def configs(thorough):
    C = {}

    def add(name, ctx, extra, ops, nc=2, nu=1, later=0, defines=(), reuse=False):
        C[name] = dict(ctx=ctx, reuse=reuse, defines=DEF + ['CTX=%d' % ctx, AVOID] + list(defines), c=dict(NC=nc, NU=nu, K=2, Extra=extra, Later=later, Ops=ops))
    t = thorough
    add('two io_contexts', 2, 2 if t else 1, ['destroy', 'listen', 'closeun', 'zero'], nc=1)
    add('three io_contexts', 3, 1, ['listen'], nc=3 if t else 2)
    add('reused objects', 2, 1, ['listen', 'closeun'], nu=1 if t else 0, defines=['ST_ASIO_REUSE_OBJECT'], reuse=True)
    add('io_contexts added to one', 1, 1, ['listen'], nc=1, later=2)
    add('io_contexts added to two', 2, 0, ['destroy'], nc=2, nu=0, later=1)
    return C


def run(c):
    cf = configs(c.thorough)

    def consts(v):
        def val(x):
            return '{%s}' % ', '.join('"%s"' % o for o in x) if isinstance(x, list) else str(x).upper()
        return 'CONSTANTS %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT Held\nCHECK_DEADLOCK FALSE\n' % ' '.join('%s = %s' % (k, val(x)) for k, x in v['c'].items())

    def gr():
        return dict(zip(cf, c.parallel([(lambda n=n, v=v: c.graph('Refs', consts(v), what='references, ' + n)) for n, v in cf.items()])))
    exes, graphs = c.parallel([lambda: c.build_all({'refs-' + n.replace(' ', '-'): dict(src='refs.cpp', std='c++14', defines=v['defines']) for n, v in cf.items()}), gr])

    def enc(op):
        r = op['res']
        return ' '.join(str(x) for x in [op['k'], r['total'], int(r['on']), len(r['conn'])] + r['conn'] + [len(r['acts']['conn'])] + r['acts']['conn'] + op['a'])

    for n, v in cf.items():
        if c.violations:
            break
        g = graphs[n]
        traces, cur = [], {}

        def cmp(op, post, got, v=v):
            if got.get('bad'):
                return got['bad']
            for k, x in got.get('held', {}).items():
                if x != op['res']['held'][k]:
                    return 'an object holds %d references instead of %d (%s)' % (x, op['res']['held'][k], k[0])

        def events(w, gots):
            ev, blind = [], v['ctx'] == 1
            for e, got in zip(w, gots):
                op = g.edges[e][1]
                a, x = op['res']['acts'], op['a']
                k, d = '', 0
                if op['k'] in ('inc', 'dec'):
                    before = g.state[g.edges[e][0]]['held'][x[0]]
                    k, d = x[0], op['res']['held'][x[0]] - before
                if op['k'] == 'ctx':
                    ev.append({'e': 'ctx'})
                    blind = False
                else:
                    ev.append(dict({f: a[f] for f in ('drop', 'conn', 'place', 'back', 'pre')}, e='op', k=k, n=d))
                if not blind:
                    ev.append({'e': 'refs', 'v': got['v'], 'op': [op['k']] + x})
            return ev
        walks = g.random_walks(c.rnd, 1600 if c.thorough else 160, 40)
        rec = []
        c.replay(exes['refs-' + n.replace(' ', '-')], g, walks, enc, cmp, what='references, ' + n, timeout=800, record=rec, nproc=32)
        cov = len({e for w, _ in rec for e in w})
        c.note('references', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(rec)}})
        bad = c.validate_many('TraceRefs', 'CONSTANTS Ctx0 = %d Reuse = %s\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n' % (v['ctx'], str(v['reuse']).upper()),
                              [('%s %d' % (n, i), events(w, gots)) for i, (w, gots) in enumerate(rec)], what='placement, ' + n)
        for label, matched, why, ev in bad:
            c.violation('placement, %s: the references do not follow from the placement of objects' % n, {'matched': matched, 'why': why, 'events': ev})


vlib.main('C17', 'model_checking', run)
