import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

MORE = ['ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_DISPATCH_BATCH_MSG', 'ST_ASIO_WANT_MSG_SEND_NOTIFY', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY', 'ST_ASIO_SHRINK_SEND_BUFFER']
# name: (kind, passed on by default)
GENERAL = {'obsoleted': ('combine', 1), 'is_ready': ('combine', 1), 'send_heartbeat': ('void', 0), 'reset': ('void', 1), 'on_heartbeat_error': ('combine', 1), 'on_send_error': ('void', 1),
           'on_recv_error': ('void', 1), 'on_close': ('void', 1), 'after_close': ('void', 1)}
HANDLE, HANDLES = {'on_msg_handle': ('combine', 0)}, {'on_msg_handle': ('value', 0), 'on_msg': ('value', 0), 'on_msg_send': ('void', 0), 'on_all_msg_send': ('void', 0), 'calc_shrink_size': ('value', 0), 'on_msg_discard': ('void', 0)}
TCP = {'on_connect': ('void', 0), 'on_unpack_error': ('void', 1), 'on_async_shutdown_error': ('void', 1)}
CLIENT, SERVER = {'prepare_reconnect': ('value', 0)}, {'take_over': ('void', 0)}
LISTEN = {'async_accept_num': ('value', 0), 'start_next_accept': ('void', 1), 'on_accept': ('combine', 1), 'on_accept_error': ('combine', 1)}
POOL = {'on_create': ('void', 0)}


def join(*a):
    r = {}
    for x in a:
        r.update(x)
    return r


def some(h, names):
    return {n: h[n] for n in names}


def run(c):
    big = 3 if c.thorough else 2
    cl, ss, ud = join(GENERAL, HANDLE, TCP, CLIENT), join(GENERAL, HANDLE, TCP, SERVER), join(GENERAL, HANDLE)
    cm, sm, um = join(GENERAL, HANDLES, TCP, CLIENT), join(GENERAL, HANDLES, TCP, SERVER), join(GENERAL, HANDLES)
    # name: target, more macros?, hooks, objects, registered at once
    cf = {
        'client': (1, 0, cl, 1, 2), 'server socket': (2, 0, ss, 1, 2), 'udp': (3, 0, ud, 1, 2), 'server': (4, 0, LISTEN, 1, 4), 'servers': (4, 0, LISTEN, 2, 2 if not c.thorough else 3), 'pools': (5, 0, POOL, 2, 2),
        'client, more hooks': (1, 1, cm, 1, big if c.thorough else 1), 'server socket, more hooks': (2, 1, sm, 1, big if c.thorough else 1), 'udp, more hooks': (3, 1, um, 1, big if c.thorough else 1),
        'two clients': (1, 0, some(cl, ['reset', 'on_msg_handle', 'prepare_reconnect', 'on_connect']), 2, 3),
        'two udp': (3, 1, some(um, ['is_ready', 'on_msg', 'on_send_error']), 2, 3),
    }

    def wrap(hooks):
        return 'EXTENDS Callbacks\nMCHooks == {%s}' % ', '.join('[n |-> "%s", k |-> "%s", d |-> %s]' % (n, k, 'TRUE' if d else 'FALSE') for n, (k, d) in hooks.items())

    def cfg(v):
        return 'CONSTANTS Hooks <- MCHooks Objs = {%s} AtOnce = %d EMIT = TRUE\nSPECIFICATION Spec\nINVARIANT Held\nCHECK_DEADLOCK FALSE\n' % (', '.join('"o%d"' % i for i in range(v[3])), v[4])

    def gr():
        return dict(zip(cf, c.parallel([(lambda n=n, v=v: c.graph('MCCallbacks', cfg(v), what='callbacks, ' + n, mods={'MCCallbacks': wrap(v[2])})) for n, v in cf.items()])))
    builds = {'callbacks-%d%s' % (t, 'm' * m): dict(src='callbacks.cpp', std='c++14', defines=['TARGET=%d' % t] + MORE * m) for t, m in {(v[0], v[1]) for v in cf.values()}}
    exes, graphs = c.parallel([lambda: c.build_all(builds), gr])

    def enc(op):
        return ' '.join(str(x) for x in [op['k']] + op['a'])

    def cmp(op, post, got):
        if got.get('bad'):
            return got['bad']
        if op['k'] == 'raise':
            for f in ('calls', 'r'):
                if got[f] != op['res'][f]:
                    return '%s of %s: %s instead of %s' % ('calls' if f == 'calls' else 'result', op['a'][1], got[f], op['res'][f])
    for n, v in cf.items():
        if c.violations:
            break
        g = graphs[n]
        walks, cov = g.walks(c.rnd, 400, 200000)
        c.replay(exes['callbacks-%d%s' % (v[0], 'm' * v[1])], g, walks, enc, cmp, what='callbacks, ' + n)
        c.note('callbacks', {n: {'edges': len(g.edges), 'covered': cov if isinstance(cov, int) else len(cov), 'walks': len(walks)}})


vlib.main('C28', 'model_checking', run)
