import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import json
import vlib

SELF = ['T', 'F', 'StopT', 'StopF', 'StartT', 'StartF', 'SetT', 'SetF', 'StopSetF', 'CbT', 'CbF', 'IvT', 'WaitT', 'StopAllT', 'StopExceptT']
OTHER = ['T', 'StopOther', 'SetOther', 'StopSetOther', 'StartOther', 'StopAllT', 'StopExceptT', 'WaitT']


def threads(c, exe):
    rounds = 40000 if c.thorough else 8000
    jobs = [(m, s) for m in ('restart', 'periodic') for s in range(6 if c.thorough else 2)]

    def go(m, s):
        rc, out, err = vlib.sh([exe, m, str(rounds), str(c.seed * 100 + s)], timeout=300)
        try:
            return m, s, json.loads(out)
        except ValueError:
            c.violation('a timer used by two threads (%s): the program died or hung' % m, {'seed': s, 'rc': rc, 'err': err[-500:]})
            return m, s, []
    got = []
    for i in range(0, len(jobs), 2):
        got += c.parallel([(lambda j=j: go(*j)) for j in jobs[i:i + 2]])
    c.note('timer of two threads', {'events': sum(len(x[2]) for x in got)})
    for mode in ('restart', 'periodic'):
        cfg = 'CONSTANT Once = %s\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n' % str(mode == 'restart').upper()
        for label, matched, why, evs in c.validate_many('TraceTimer', cfg, [('%s %d' % x[:2], x[2]) for x in got if x[0] == mode], what='timer of two threads', batch=200000):
            c.violation('a timer used by two threads (%s): event %s is not allowed' % (label, matched), {'events': evs[max(0, (matched or 0) - 20):(matched or 0) + 3], 'why': why})


def run(c):
    S = lambda xs: '{' + ', '.join('"%s"' % x for x in xs) + '}'
    cf = {}
    for al in (False, True):
        t = 'aligned' if al else 'plain'
        cf['one timer, ' + t] = (1, al, '<<%s>>' % S(SELF), '{2, 3}', 5)
        cf['two timers, ' + t] = (2, al, '<<%s, %s>>' % (S(OTHER), S(['T', 'F', 'SetOther', 'StopOther'] if c.thorough else ['T', 'F'])), '{2, 3}', 4)

    def gr():
        res = c.parallel([(lambda n=n, v=v: c.graph('MCTimer', 'CONSTANTS Ids = {%s} Scripts <- MCScripts Ivs = %s MaxAdv = %d Aligned = %s EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n'
                          % (', '.join(str(i + 1) for i in range(v[0])), v[3], v[4], str(v[1]).upper()), what=n, mods={'MCTimer': 'EXTENDS Timer\nMCScripts == %s' % v[2]})) for n, v in cf.items()])
        return dict(zip(cf, res))
    D = dict(src='timer.cpp', std='c++14')
    A = ['-fsanitize=address', '-fno-sanitize-recover']
    exes, graphs = c.parallel([lambda: c.build_all({'plain': dict(D), 'aligned': dict(D, defines=['ST_ASIO_ALIGNED_TIMER']), 'asan': dict(D, extra=A), 'threads': dict(src='timermt.cpp', std='c++14'), 'steady': dict(D, defines=['ST_ASIO_USE_STEADY_TIMER'])}), gr])
    for n, v in cf.items():
        g = graphs[n]
        walks, cov = g.walks(c.rnd, maxlen=50, limit=None if c.thorough else 4000)
        walks += g.random_walks(c.rnd, 2000 if c.thorough else 300, 60)
        c.note('timer', {n: {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)}})
        for b in (['aligned'] if v[1] else ['plain', 'steady', 'asan']):
            ws = walks if b in ('plain', 'aligned') or c.thorough else walks[:400]
            c.replay([exes[b], str(v[0])], g, ws, lambda op: '%s %d %d %s' % (op['k'], op['id'], op['iv'], op['cb']),
                     lambda op, post, got: got['bad'] if got.get('bad') else None if got == op['res'] else 'expected %s' % op['res'], what='%s (%s)' % (n, b))
    threads(c, exes['threads'])
    c.assumptions += ['expirations at the same instant have no defined order and are not generated', 'several threads: only what the sockets themselves do, i.e. another thread starts or stops a timer while its callback ends']


vlib.main('C15', 'model_checking', run)
