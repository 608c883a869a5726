"""Common machinery of the checks: building harnesses from /repo's working tree, running TLC,
turning TLC's state graph into test walks, validating recorded traces, writing evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from collections import deque, defaultdict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """the check itself failed (not a verdict about the code)"""


def sh(cmd, timeout=None, env=None, cwd=None, stdin=None):
    """run a command in its own process group, kill the whole group on timeout; returns (rc, out, err); rc None = timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=env, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return rc, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


class Graph:
    """labelled transition graph emitted by TLC (one Emit per transition)"""
    def __init__(self):
        self.inits = []
        self.edges = []                 # (src key, op, dst key)
        self.out = defaultdict(list)    # key -> [edge index]
        self.state = {}                 # key -> state json

    def add(self, pre, op, post):
        k1, k2 = json.dumps(pre, sort_keys=True), json.dumps(post, sort_keys=True)
        self.state[k1] = pre
        self.state[k2] = post
        self.out[k1].append(len(self.edges))
        self.edges.append((k1, op, k2))

    def walks(self, rnd, maxlen=60, limit=None):
        """walks from the initial state(s) which together take every edge; each is a list of edge indices"""
        todo = {k: list(v) for k, v in self.out.items()}
        for v in todo.values():
            rnd.shuffle(v)
        pred = {}
        inits = self.inits or [self.edges[0][0]]
        q = deque(inits)
        seen = set(inits)
        while q:                         # BFS tree
            k = q.popleft()
            for e in self.out.get(k, ()):
                d = self.edges[e][2]
                if d not in seen:
                    seen.add(d)
                    pred[d] = e
                    q.append(d)
        order = [k for k in seen if todo.get(k)]
        rnd.shuffle(order)
        res = []
        covered = 0
        for k in order:
            while todo.get(k):
                path = []
                c = k
                while c in pred:
                    path.append(pred[c])
                    c = self.edges[pred[c]][0]
                path.reverse()
                c = k
                while len(path) < maxlen:
                    if todo.get(c):
                        e = todo[c].pop()
                        covered += 1
                    else:                # go on to a neighbour which has something left
                        nxt = [e for e in self.out.get(c, ()) if todo.get(self.edges[e][2])]
                        if not nxt:
                            break
                        e = rnd.choice(nxt)
                    path.append(e)
                    c = self.edges[e][2]
                res.append(path)
                if limit and len(res) >= limit:
                    return res, covered
        return res, covered

    def random_walks(self, rnd, num, length):
        inits = self.inits or [self.edges[0][0]]
        res = []
        for _ in range(num):
            c = rnd.choice(inits)
            path = []
            while len(path) < length and self.out.get(c):
                e = rnd.choice(self.out[c])
                path.append(e)
                c = self.edges[e][2]
            res.append(path)
        return res


class Check:
    def __init__(self, pid, level, budget=600):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.rnd = random.Random(self.seed)
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'tlc_runs': [], 'parts': {}}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.lock = threading.Lock()
        self.budget = budget

    # ------------------------------------------------------------------ build
    def build(self, name, src, defines=(), std='c++11', opt='-O0', ndebug=True, libs=(), extra=()):
        out = os.path.join(self.dir, name)
        cmd = ['g++', '-std=' + std, opt, '-w', '-pthread', '-fexceptions', '-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_CHRONO_HEADER_ONLY',
               '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-I', REPO + '/include', '-I', VERIF + '/harness']
        if ndebug:
            cmd.append('-DNDEBUG')
        cmd += ['-D' + d for d in defines] + list(extra)
        srcs = [src] if isinstance(src, str) else list(src)
        cmd += [s if s.startswith('/') else os.path.join(VERIF, 'harness', s) for s in srcs]
        cmd += ['-o', out, '-lboost_system', '-lboost_thread'] + list(libs)
        t = time.time()
        rc, o, e = sh(cmd, timeout=420)
        if rc != 0:
            raise CheckError('building %s failed (%s):\n%s' % (name, rc, (e or o)[-3000:]))
        self.note('build', {name: round(time.time() - t, 1)})
        return out

    @staticmethod
    def parallel(fns):
        """run the functions in parallel, return their results in order; the first exception is raised"""
        res, errs = [None] * len(fns), []

        def go(i):
            try:
                res[i] = fns[i]()
            except BaseException as ex:
                errs.append(ex)
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return res

    def build_all(self, specs):
        """specs: {name: kwargs of build}; built in parallel; returns {name: path}"""
        res, errs = {}, []

        def go(n, kw):
            try:
                res[n] = self.build(n, **kw)
            except Exception as ex:
                errs.append(ex)
        ts = [threading.Thread(target=go, args=(n, kw)) for n, kw in specs.items()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return res

    def note(self, key, val):
        with self.lock:
            if isinstance(val, dict):
                self.cov['parts'].setdefault(key, {}).update(val)
            else:
                self.cov['parts'][key] = val

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, dfs=False, mem='4g', extra=(), mods=None):
        """cfg: text of the configuration. Returns (rc, stdout). TLC runs in a private copy of spec/."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'spec', f), d)
        with open(os.path.join(d, module + '.cfg'), 'w') as f:
            f.write(cfg)
        for n, text in (mods or {}).items():    # generated instance modules (constants TLC's configuration files cannot express)
            with open(os.path.join(d, n + '.tla'), 'w') as f:
                f.write('---- MODULE %s ----\n%s\n====\n' % (n, text))
        e = dict(os.environ)
        e.update(env or {})
        jopt = ['-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=4']
        if dfs:
            jopt.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd = ['java'] + jopt + ['-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
                                 '-config', module + '.cfg'] + list(extra) + [module + '.tla']
        rc, out, err = sh(cmd, timeout=timeout, env=e, cwd=d)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        if rc is None:
            raise CheckError('TLC timed out on %s' % module)
        return rc, out + err

    @staticmethod
    def tlc_stats(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model_check(self, module, cfg, what='', **kw):
        """exhaustive check of the design; a violation here is an error of the check (the model is ours), never a verdict about the code"""
        t = time.time()
        rc, out = self.tlc(module, cfg, **kw)
        gen, dist = self.tlc_stats(out)
        if rc != 0:
            raise CheckError('TLC rejected the model %s (%s), rc=%s:\n%s' % (module, what, rc, out[-6000:]))
        with self.lock:
            self.cov['states'] += dist
            self.cov['transitions'] += gen
            self.cov['tlc_runs'].append({'module': module, 'what': what, 'distinct': dist, 'generated': gen, 's': round(time.time() - t, 1)})
        return out

    def graph(self, module, cfg, what='', timeout=600, mem='6g', mods=None):
        """run TLC over the model with every transition printed (EMIT = TRUE); returns the Graph"""
        out = self.model_check(module, cfg, what=what or 'graph', workers=1, timeout=timeout, mem=mem, mods=mods)
        g = Graph()
        for line in out.splitlines():
            if line.startswith('"{'):
                try:
                    d = json.loads(json.loads(line))
                except ValueError:
                    raise CheckError('cannot parse TLC output line ' + line[:300])
                if 'init' in d:
                    g.inits.append(json.dumps(d['init'], sort_keys=True))
                else:
                    g.add(d['pre'], d['op'], d['post'])
        if not g.edges:
            raise CheckError('no transitions emitted by ' + module + '\n' + out[-2000:])
        return g

    def validate(self, module, cfg, events, what='', timeout=600, dfs=False, mem='4g'):
        """is the recorded event list a behaviour of the trace specification? returns (accepted, matched events, tail of the TLC output)"""
        fn = os.path.join(self.dir, 'trace-%d.ndjson' % self.rnd.getrandbits(60))
        with open(fn, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev) + '\n')
        t = time.time()
        rc, out = self.tlc(module, cfg, env={'TRACE': fn}, workers=1, timeout=timeout, dfs=dfs, mem=mem)
        gen, dist = self.tlc_stats(out)
        with self.lock:
            self.cov['tlc_runs'].append({'module': module, 'what': what or 'trace', 'events': len(events), 'distinct': dist, 'generated': gen, 's': round(time.time() - t, 1)})
        m = re.findall(r'"MATCHED", (\d+)', out)
        matched = int(m[-1]) if m else -1
        if rc == 0 and matched == len(events):
            return True, matched, ''
        if 'Parsing or semantic analysis failed' in out or 'Error: TLC threw' in out or 'java.lang' in out or \
           ('was not able to evaluate' in out) or 'evaluating the' in out:
            raise CheckError('TLC failed on the trace of %s:\n%s' % (module, out[-5000:]))
        inv = re.findall(r'Invariant (\S+) is violated', out)
        ap = re.findall(r'Action property (\S+) is violated', out)
        if inv or ap:
            return False, None, 'violates ' + ','.join(inv + ap) + '\n' + out[-2500:]
        if m and 'ostcondition' in out:
            return False, matched, 'event %d not allowed' % (matched + 1)
        raise CheckError('TLC: unexpected end on trace of %s rc=%s:\n%s' % (module, rc, out[-5000:]))

    def validate_many(self, module, cfg, traces, what='', timeout=600, dfs=False, batch=20000, mem='4g'):
        """traces: list of (label, events). They are joined with reset events; on a rejection the offending trace is isolated
        and validated on its own again. Returns list of (label, matched, explanation, events)."""
        bad = []
        i = 0
        while i < len(traces):
            j, n = i, 0
            while j < len(traces) and (j == i or n + len(traces[j][1]) < batch):
                n += len(traces[j][1]) + 1
                j += 1
            group = traces[i:j]
            while group:
                evs = []
                for _, t in group:
                    evs.append({'e': 'reset'})
                    evs.extend(t)
                ok, matched, why = self.validate(module, cfg, evs, what=what, timeout=timeout, dfs=dfs, mem=mem)
                if ok:
                    with self.lock:
                        self.cov['traces_validated_against_impl'] += len(group)
                    break
                # find the culprit
                culprit = None
                if matched is not None:
                    pos = 0
                    for gi, (_, t) in enumerate(group):
                        pos += 1 + len(t)
                        if matched < pos:
                            culprit = gi
                            break
                cands = [culprit] if culprit is not None else range(len(group))
                found = None
                for gi in cands:
                    ok1, m1, why1 = self.validate(module, cfg, [{'e': 'reset'}] + group[gi][1], what=what + ' (isolated)', timeout=timeout, dfs=dfs, mem=mem)
                    if not ok1:
                        found = gi
                        bad.append((group[gi][0], m1, why1, group[gi][1]))
                        break
                if found is None:
                    raise CheckError('trace rejected in a batch but accepted alone (%s): %s' % (module, why))
                with self.lock:
                    self.cov['traces_validated_against_impl'] += found
                if len(bad) >= 3:
                    return bad
                group = group[found + 1:]
            i = j
        return bad

    # ---------------------------------------------------------------- verdict
    def violation(self, what, detail):
        """record a violation; detail goes to the replay file"""
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        key = re.sub(r'[^A-Za-z0-9_.-]+', '_', what)[:80]
        path = os.path.join(d, '%s-%s.json' % (self.pid, key))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'seed': self.seed, 'tier': self.tier, 'detail': detail}, f, indent=1, default=str)
        self.violations.append((what, path))

    def known_finding(self, key, what):
        """True if `key` is a recorded (unrepaired) finding of this property"""
        fn = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(fn):
            for line in open(fn):
                m = re.match(r'finding: property=(\S+) key=(\S+) ', line)
                if m and m.group(1) == self.pid and m.group(2) == key:
                    self.known.append((key, what))
                    return True
        return False

    def sample(self, s):
        with self.lock:
            if len(self.cov['samples']) < 6:
                self.cov['samples'].append(s)

    def finish(self):
        wall = round(time.time() - self.t0, 1)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'wall_s': wall, 'assumptions': self.assumptions, 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for key, what in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for what, path in self.violations[:5]:
            print('violation: ' + what)
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0][1]))
        print('%s %s: %s, %d states, %d traces/walks, %.1f s' % (self.pid, self.tier, 'VIOLATED' if self.violations else 'held',
                                                              self.cov['states'], self.cov['traces_validated_against_impl'], wall))
        sys.stdout.flush()
        return 1 if self.violations else 0

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------- replay walks
    def replay(self, exe, graph, walks, encode, compare=None, what='', timeout=300, env=None, pre=(), record=None, nproc=8):
        """drive the implementation along walks of the specification's graph and compare every observation.
        encode(op) -> command line (str); the driver answers each command with one JSON line, which must equal op['res'] (or compare(op, post, answer)).
        A walk starts with the command 'reset', answered by a JSON line which is ignored, and the commands `pre`.
        record: a list which gets (walk, answers) of each walk."""
        chunks = [walks[i::nproc] for i in range(nproc)]
        chunks = [c for c in chunks if c]
        bad = []

        def one(ws):
            lines = []
            for w in ws:
                lines.append('reset')
                lines.extend(pre)
                for e in w:
                    lines.append(encode(graph.edges[e][1]))
            rc, out, err = sh(exe if isinstance(exe, list) else [exe], timeout=timeout, stdin=('\n'.join(lines) + '\n').encode(), env=env)
            ans = out.splitlines()
            pos = 0
            for wi, w in enumerate(ws):
                hist = []
                pos += 1 + len(pre)
                for e in w:
                    src, op, dst = graph.edges[e]
                    got = None
                    if pos < len(ans):
                        try:
                            got = json.loads(ans[pos])
                        except ValueError:
                            got = {'unparsable': ans[pos][:200]}
                    hist.append({'op': op, 'got': got})
                    if got is None:
                        bad.append((hist, 'no answer (exit %s) %s' % (rc, err[-500:])))
                        return
                    msg = compare(op, graph.state[dst], got) if compare else (None if got == op.get('res') else 'expected %s' % json.dumps(op.get('res')))
                    if msg:
                        bad.append((hist, msg))
                        return
                    pos += 1
                with self.lock:
                    self.cov['traces_validated_against_impl'] += 1
                    if record is not None:
                        record.append((w, [h['got'] for h in hist]))
        self.parallel([(lambda x=x: one(x)) for x in chunks])
        for hist, msg in bad[:3]:
            self.violation('%s: %s' % (what, msg), {'history': hist[-80:]})
        if walks and not bad:
            w = max(walks[:200], key=len)
            self.sample({'walk': [graph.edges[e][1] for e in w[:12]]})
        return not bad


def main(pid, level, fn):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as ex:
        if c.violations:        # a violation found before the error still counts
            rc = c.finish()
        else:
            print('ERROR in the check of %s: %s' % (pid, ex))
            rc = 2
    finally:
        c.cleanup()
    sys.exit(rc)
