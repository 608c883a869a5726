import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
import vlib

BLOCK = 65536  # what the programs read and send at once


def script(r):
    """commands for one pair of programs; the files are changed from outside in between"""
    links, ops, nid, have = r.choice((1, 1, 2, 3, 4, 7)), [], 1, {}

    def size():
        return r.choice((0, 1, 2, links - 1, links, links + 1, r.randrange(50), 2 * links - 1, BLOCK - 1, BLOCK, BLOCK + 1, links * BLOCK, links * BLOCK - 1, links * BLOCK + 1,
                         r.randrange(300000), r.randrange(1000000)))
    for _ in range(r.randrange(6, 14)):
        f = r.choice('abc')
        k = r.choice(('get', 'get', 'get', 'put', 'put', 'talk', 'get missing', 'put missing', 'dir', 'list', 'list'))
        if k == 'talk':
            ops.append(['talk', 'hello%d' % len(ops) + 'x' * r.choice((0, 0, 1000))])
        elif k == 'dir':
            ops.append([r.choice(('get', 'put')), 'dir/x'])
        elif k == 'list':
            op, fs = r.choice(('get', 'put')), r.sample(['a', 'b', 'c', 'dir/x'], r.choice((2, 3, 4)))
            side = 'srv' if op == 'get' else 'cli'
            for f in fs:
                if f != 'dir/x' and r.random() < .8:
                    ops.append(['file', side, f, nid, size()])
                    nid += 1
            ops.append([op] + fs)
        else:
            side, op = ('srv', 'get') if k.startswith('get') else ('cli', 'put')
            if 'missing' not in k and ((side, f) not in have or r.random() < .6):
                ops.append(['file', side, f, nid, size()])
                nid += 1
            ops.append([op, f])
            if 'missing' not in k:
                have['srv', f] = have['cli', f] = 1
    return {'seed': r.randrange(1 << 30), 'links': links, 'ops': ops}


def run(c):
    flags = ['ST_ASIO_RESTORE_OBJECT', 'ST_ASIO_SERVER_PORT=5051', 'ST_ASIO_START_OBJECT_ID=500', 'ST_ASIO_PASSIVE_RECV', 'ST_ASIO_WANT_MSG_SEND_NOTIFY', 'ST_ASIO_AVOID_AUTO_STOP_SERVICE',
             'ST_ASIO_INPUT_QUEUE=non_lock_queue', 'ST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>', 'ST_ASIO_SCATTERED_RECV_BUFFER', '_FILE_OFFSET_BITS=64']

    def model(L, M, N):
        return lambda: c.model_check('Transfer', 'CONSTANTS L = %d MaxSize = %d NCmds = %d\nSPECIFICATION Spec\nINVARIANTS Same Phases\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % (L, M, N),
                                     'transfers over %d links of up to %d bytes, %d commands' % (L, M, N))
    cases = [(1, 4, 2), (2, 3, 2), (3, 4, 1)] + ([(2, 5, 2), (3, 4, 2), (4, 5, 1)] if c.thorough else [])
    server, client = c.parallel([lambda: c.build('file_server', [vlib.REPO + '/file_server/file_server.cpp', vlib.REPO + '/file_server/file_socket.cpp'], flags, std='c++14', opt='-O1'),
                                 lambda: c.build('file_client', vlib.REPO + '/file_client/file_client.cpp', ['_FILE_OFFSET_BITS=64'], std='c++14', opt='-O1', libs=['-lboost_timer'])] +
                                [model(*x) for x in cases])[:2]
    scripts, traces = [script(c.rnd) for _ in range(600 if c.thorough else 72)], []

    def go(k):
        mine, d = scripts[k::6], os.path.join(c.dir, 'files%d' % k)
        os.makedirs(d)
        rc, out, err = vlib.sh([sys.executable, os.path.join(vlib.VERIF, 'harness', 'transfer.py'), server, client, d], timeout=5000 if c.thorough else 500, stdin=json.dumps(mine).encode())
        ans = [json.loads(x) for x in out.splitlines()]
        if len(ans) != len(mine) and not any(e['e'] == 'stuck' for ev in ans for e in ev):
            raise vlib.CheckError('the driver of the transfers ended early (%s): %s' % (rc, err[-1000:]))
        for s, ev in zip(mine, ans):
            stuck = [e for e in ev if e['e'] == 'stuck']
            if stuck:
                c.violation('file transfer: ' + stuck[0]['what'], {'script': s, 'events': ev})
            else:
                traces.append((json.dumps(s), ev))
    c.parallel([(lambda k=k: go(k)) for k in range(6)])
    c.note('transfers', {'programs': len(scripts), 'commands': sum(len(s['ops']) for s in scripts)})
    if traces:
        c.sample(traces[0][1])
    cfg = 'CONSTANT MaxLinks = 7\nSPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Matched\nCHECK_DEADLOCK FALSE\n'
    for label, matched, why, evs in c.validate_many('TraceTransfer', cfg, traces, what='file transfers'):
        e = evs[matched - 1] if 0 < (matched or 0) <= len(evs) else {}
        c.violation('file transfer: %s is not allowed' % e.get('e'), {'script': json.loads(label), 'events': evs[:matched], 'why': why})
    c.assumptions += ['the links do not break during a transfer', 'the next command is given when both programs have come to rest']


vlib.main('C30', 'model_checking', run)
