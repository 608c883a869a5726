import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

TCFG = 'CONSTANTS MaxLen = 1000 Chars = {} EMIT = FALSE\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'


def match(spec, got):
    return len(spec) == len(got) and all(x == 99 or x == y for x, y in zip(spec, got))


def run(c):
    exe, g = c.parallel([
        lambda: c.build('buffer', 'buffer.cpp', std='c++14', opt="-O1", extra=['-fsanitize=address', '-fno-sanitize-recover']),
        lambda: c.graph('Buffer', 'CONSTANTS MaxLen = %d Chars = {0, 1} EMIT = TRUE\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % (4 if c.thorough else 3), what='all operations on short strings')])
    env = dict(os.environ, ASAN_OPTIONS='allocator_may_return_null=1:detect_leaks=1:max_allocation_size_mb=1024')
    walks, cov = g.walks(c.rnd, maxlen=60, limit=None if c.thorough else 3000)
    c.note('graph', {'edges': len(g.edges), 'covered': cov, 'walks': len(walks)})

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        if got['throws'] != op['throws']:
            return 'threw %s instead of %s' % (got['throws'], op['throws'])
        if not match(post['a'], got['a']) or not match(post['b'], got['b']):
            return 'contents differ from %s' % post
    c.replay(exe, g, walks, lambda op: ' '.join([op['k'], str(op['pos']), str(op['n']), str(op['ch'])] + [str(x) for x in op['src']]), cmp, what='basic_buffer', env=env)
    traces = []
    for i in range(60 if c.thorough else 12):
        rc, out, err = vlib.sh([exe, 'random', str(c.seed * 977 + i), '250'], timeout=60, env=env)
        evs = [json.loads(x) for x in out.splitlines()]
        bad = [e for e in evs if e.get('bad')]
        if rc != 0 or bad:
            c.violation('basic_buffer: %s' % (bad[0]['bad'] if bad else 'memory error'), {'rc': rc, 'err': err[-1500:], 'last': evs[-3:]})
        traces.append(('random %d' % i, evs))
    for label, m, why, evs in c.validate_many('TraceBuffer', TCFG, traces, what='buffer histories'):
        c.violation('buffer history not allowed (%s): %s' % (label, why.splitlines()[0] if why else ''), {'events': evs[:(m or 0) + 1][-4:]})
    c.assumptions += ['exhaustive for strings up to %d bytes; capacity steps and bigger sizes by random histories validated by TLC; memory errors are observed through AddressSanitizer' % (4 if c.thorough else 3)]


vlib.main('C25', 'model_checking', run)
