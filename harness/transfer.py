"""runs the real file server and file client with a proxy between them which cuts the streams into segments and records what happens on each link.
stdin: a JSON list of scripts {seed, links, ops: [[op, ...]]}; stdout: one JSON list of events for each. usage: transfer.py SERVER CLIENT SCRATCH"""
import sys, os, json, random, socket, selectors, subprocess, threading, time, re, shutil, struct
SERVER, CLIENT, SCRATCH = sys.argv[1:4]
LIMIT = 30.0  # seconds until something is considered stuck


def contents(i, n):
    r = random.Random(i)
    return r.randbytes(n)


class Proxy(threading.Thread):
    def __init__(self, target, rnd, log):
        super().__init__(daemon=True)
        self.l = socket.socket()
        self.l.bind(('127.0.0.1', 0))
        self.l.listen(64)
        self.port, self.target, self.rnd, self.log, self.lock, self.ids, self.end = self.l.getsockname()[1], target, rnd, log, threading.Lock(), {}, False
        self.ready = 0

    def run(self):
        sel = selectors.DefaultSelector()
        sel.register(self.l, selectors.EVENT_READ)
        links = []
        while not self.end:
            busy = False
            for key, _ in sel.select(0.02):
                if key.fileobj is self.l:
                    a, _ = self.l.accept()
                    b = socket.create_connection(('127.0.0.1', self.target))
                    L = {'k': -1, 'raw': [0, 0], 'buf': [b'', b''], 'hold': [0, 0], 'n': [0, 0], 'out': [bytearray(), bytearray()], 's': [a, b]}
                    for i in (0, 1):
                        L['s'][i].setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                        L['s'][i].setblocking(False)
                        sel.register(L['s'][i], selectors.EVENT_READ, (L, i))
                    links.append(L)
                    continue
                L, i = key.data
                try:
                    d = key.fileobj.recv(self.rnd.choice((1, 7, 1000, 65536, 65536, 262144)))
                except (BlockingIOError, InterruptedError):
                    continue
                except OSError:
                    d = b''
                if not d:
                    for s in L['s']:
                        try:
                            sel.unregister(s)
                        except KeyError:
                            pass
                        s.close()
                    if L in links:
                        links.remove(L)
                    continue
                with self.lock:
                    self.parse(L, i, d)
                L['out'][1 - i] += d
            for L in links:
                for i in (0, 1):
                    o = L['out'][i]
                    if o and time.time() > L['hold'][i] and self.rnd.random() < .7:
                        q = self.rnd.random()
                        n = len(o) if q < .5 else self.rnd.randint(1, len(o)) if q < .85 else self.rnd.randint(1, min(len(o), 90))
                        if q >= .85:
                            L['hold'][i] = time.time() + .003  # let the receiver see the small piece alone
                        try:
                            n = L['s'][i].send(o[:n])
                            del o[:n]
                        except (BlockingIOError, InterruptedError):
                            pass
                        except OSError:
                            o.clear()
                    busy = busy or bool(o)
            if busy:
                time.sleep(0)
        for L in links:
            for s in L['s']:
                s.close()
        self.l.close()

    def parse(self, L, i, d):
        while d:
            if L['raw'][i]:
                n = min(len(d), L['raw'][i])
                L['raw'][i] -= n
                d = d[n:]
                if not L['raw'][i]:
                    self.log.append({'e': 'up' if i == 0 else 'down', 'k': L['k'], 'n': L['n'][i]})
                continue
            L['buf'][i] += d
            d = b''
            b = L['buf'][i]
            if len(b) < 2 or len(b) < struct.unpack('>H', b[:2])[0]:
                return
            n = struct.unpack('>H', b[:2])[0]
            m, d = b[2:n], b[n:]
            L['buf'][i] = b''
            self.message(L, i, m)

    def message(self, L, i, m):
        t, k = m[0], L['k']
        num = [struct.unpack('<q', m[1 + 8 * j:9 + 8 * j])[0] for j in range((len(m) - 1) // 8)] if t in (0, 1, 3, 11) and not (i == 0 and t == 0) else []
        if i == 0:
            if t == 3:
                L['k'] = num[0]
                self.ready += 1
            elif t == 0:
                self.log.append({'e': 'ask0', 'k': k, 'f': m[1:].decode()})
            elif t == 1:
                self.log.append({'e': 'ask1', 'k': k, 'off': num[0], 'len': num[1]})
                L['raw'][1] = L['n'][1] = num[1]
            elif t == 10:
                self.log.append({'e': 'ask10', 'k': k, 'f': m[1:].decode()})
            elif t == 11:
                self.log.append({'e': 'ask11', 'k': k, 'off': num[0], 'len': num[1], 'f': m[17:].decode()})
            elif t == 2:
                pass  # what the server prints is recorded
            else:
                self.log.append({'e': 'unknown', 'k': k, 'head': t})
        else:
            if t == 0:
                self.log.append({'e': 'rep0', 'k': k, 'size': num[0]})
            elif t == 10:
                self.log.append({'e': 'rep10', 'k': k, 'ok': m[1] == 0, 'f': m[2:].decode()})
            elif t == 11:
                ok = m[9] == 0
                self.log.append({'e': 'rep11', 'k': k, 'len': num[0], 'ok': ok})
                if ok:
                    L['raw'][0] = L['n'][0] = num[0]
            else:
                self.log.append({'e': 'unknown', 'k': k, 'head': t})


class Prog:
    def __init__(self, args, cwd):
        self.p = subprocess.Popen(['stdbuf', '-oL'] + args, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.text = ''
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        while True:
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                break
            self.text += d.decode('latin1')

    def say(self, s):
        try:
            self.p.stdin.write((s + '\n').encode())
            self.p.stdin.flush()
        except OSError:
            pass

    def quit(self):
        self.say('quit')
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def until(f, t=LIMIT):
    end = time.time() + t
    while time.time() < end:
        r = f()
        if r:
            return r
        time.sleep(.004)
    return None


def world(script, where):
    rnd, links, log = random.Random(script['seed']), script['links'], []
    S, C = os.path.join(where, 's'), os.path.join(where, 'c')
    os.makedirs(S)
    os.makedirs(C)
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    port = s.getsockname()[1]
    s.close()
    server = Prog([SERVER, str(port), '127.0.0.1'], S)

    def up():
        try:
            socket.create_connection(('127.0.0.1', port)).close()
            return True
        except OSError:
            return False
    if not until(up):
        server.quit()
        return [{'e': 'stuck', 'what': 'the server does not listen'}]
    proxy = Proxy(port, rnd, log)
    proxy.start()
    client = Prog([CLIENT, str(proxy.port), '127.0.0.1', str(links)], C)
    known, sizes = {b'': 0}, {}
    try:
        if not until(lambda: proxy.ready == links):
            return log + [{'e': 'stuck', 'what': 'not all links came up'}]

        def look(side, f):
            p = os.path.join(S if side == 'srv' else C, f)
            if not os.path.exists(p):
                return [-1, 0]
            b = open(p, 'rb').read()
            return [known.get(b, -2), len(b)]
        for x in script['ops']:
            with proxy.lock:
                if x[0] == 'file':  # file side name id size
                    b = contents(x[3], x[4])
                    known.setdefault(b, x[3])
                    p = os.path.join(S if x[1] == 'srv' else C, x[2])
                    open(p, 'wb').write(b)
                    log.append({'e': 'file', 'side': x[1], 'f': x[2], 'id': known[b], 'size': x[4]})
                    continue
                log.append({'e': 'cmd', 'op': x[0], 'fs': x[1:]})
                at, sat, ev = len(client.text), len(server.text), len(log)
            if x[0] == 'talk':
                client.say(x[1])
                if not until(lambda: 'client says: ' + x[1] + '\n' in server.text[sat:]):
                    return log + [{'e': 'stuck', 'what': 'nothing was said'}]
                time.sleep(.02)
                said = server.text[sat:].count('client says: ' + x[1] + '\n')
                with proxy.lock:
                    log += [{'e': 'talk', 'k': 0, 'text': x[1]} for _ in range(said)] + [{'e': 'done', 'outs': ['said'], 'fs': [], 'cli': [], 'srv': []}]
                continue
            client.say(' '.join(x))

            def outs():
                parts, res = client.text[at:].split('transmit ')[1:], []
                # "transmit f begin." starts a file, "transmit f failed!" ends it
                for p in parts:
                    if p.split('\n')[0].endswith('failed!'):
                        if res:
                            res[-1] = 'failed'
                    elif re.search(r'end, speed', p):
                        res.append('end')
                    elif 'get file failed' in p or 'cannot create or truncate' in p or p.count('can not open file') == links:
                        res.append('refused')
                    else:
                        res.append(None)
                return res if len(res) == len(x) - 1 and None not in res else None
            if not until(outs):
                return log + [{'e': 'stuck', 'what': '%s does not end' % ' '.join(x), 'text': client.text[at:][-300:]}]
            # the rest of what is on the way: the other links' replies and the server's writing

            def settled():
                with proxy.lock:
                    ev1 = log[ev:]
                n = lambda e: sum(1 for y in ev1 if y['e'] == e)
                return n('ask0') == n('rep0') and n('ask10') == n('rep10') and n('ask11') == n('rep11') == n('up') == server.text[sat:].count('file accepting end') and n('ask1') == n('down')
            if not until(settled):
                return log + [{'e': 'stuck', 'what': 'the links do not come to rest'}]
            time.sleep(.12)  # the client looks every 50 ms whether a refused transfer is over
            with proxy.lock:
                log.append({'e': 'done', 'outs': outs(), 'fs': x[1:], 'cli': [look('cli', f) for f in x[1:]], 'srv': [look('srv', f) for f in x[1:]]})
        return log
    finally:
        client.quit()
        server.quit()
        proxy.end = True
        proxy.join(5)


for i, script in enumerate(json.load(sys.stdin)):
    w = os.path.join(SCRATCH, 'w%d' % i)
    os.makedirs(w)
    try:
        r = world(script, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(json.dumps(r), flush=True)
    if any(e['e'] == 'stuck' for e in r):
        break  # the others would only take long as well
os._exit(0)
