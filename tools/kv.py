"""Runner shared by all checks: builds drivers from /repo's working tree, runs
them, runs TLC on the specification, writes the evidence file and the verdict."""
import os, sys, json, time, random, shutil, subprocess, tempfile, re, importlib, threading, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
TLA = '/opt/veriftools/tla'
CPATH = None
TIMES = False

class Violation(Exception):
    def __init__(self, msg, files=()):
        Exception.__init__(self, msg); self.files = list(files)

class ToolError(Exception):
    pass

def sh(cmd, timeout=600, cwd=None, env=None, mem_gb=None, stdout=None):
    """run; returns (rc, stdout, stderr); rc None on timeout"""
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, text=True, errors='replace')
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o or '', er or ''
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
        return None, o or '', er or ''

class TlcResult:
    pass

class Ctx:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.quick = tier != 'thorough'
        self.rng = random.Random('%s/%d' % (pid, seed))
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(VERIF, 'build'))
        self.pool = ThreadPoolExecutor(8)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.known_seen = {}
        self.lock = threading.Lock()
        self.known = load_known()

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    def count(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.cov['samples']) < limit:
                self.cov['samples'].append(s)

    # ---- building -----------------------------------------------------
    def cxx(self, name, src, flags=('-O1',), std='c++17', optional=False):
        """compile /verif/harness/<src> against /repo/include; a driver that uses only
        public API and no longer compiles is a violation, unless optional"""
        out = self.path(name)
        cmd = ['g++', '-std=' + std, '-w', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'harness'),
               *flags, os.path.join(VERIF, 'harness', src), '-o', out]
        for attempt in (0, 1):
            rc, o, e = sh(cmd, timeout=400)
            if rc == 0:
                return out
        if optional:
            return None
        log = self.path(name + '.compile.log')
        with open(log, 'w') as f:
            f.write(' '.join(cmd) + '\n' + o + e)
        if rc is None or 'Killed' in e or 'internal compiler error' in e or 'No space left' in e:
            raise ToolError('compiler failed: ' + e[-500:])
        raise Violation('public interface no longer compiles in %s: %s' % (src, first_error(e)), [log])

    def run(self, cmd, out=None, timeout=120, ok=(0,), what='driver', cwd=None):
        """run a driver of the real code; crash or hang is a violation (confirmed by a second run)"""
        if isinstance(cmd, str): cmd = [cmd]
        last = None
        for attempt in (0, 1):
            so = open(out, 'w') if out else None
            rc, o, e = sh([str(c) for c in cmd], timeout=timeout, stdout=so, cwd=cwd or self.work)
            if so: so.close()
            if rc in ok:
                return o
            last = (rc, e)
        rc, e = last
        log = self.path('crash.log')
        with open(log, 'w') as f:
            f.write('%s\nrc=%s\n%s\n' % (' '.join(map(str, cmd)), rc, e))
        raise Violation('%s %s: %s' % (what, 'did not terminate' if rc is None else 'failed with status %s' % rc, e[-300:]),
                        [log] + ([out] if out else []))

    # ---- TLC ----------------------------------------------------------
    def classes(self):
        with self.lock:
            d = os.path.join(self.work, 'cls')
            if not os.path.isdir(d):
                os.makedirs(d)
                rc, o, e = sh(['javac', '-cp', TLA + '/tla2tools.jar', '-d', d, os.path.join(VERIF, 'java', 'Rat.java')])
                if rc != 0:
                    raise ToolError('javac: ' + e)
            return d

    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap='2g', extra=(), name=None, deque=False):
        """run TLC on spec/<module>.tla with the given cfg text. Returns TlcResult."""
        cls = self.classes()
        name = name or module
        with self.lock:
            self._n = getattr(self, '_n', 0) + 1
            n = self._n
        cfgf = self.path('%s-%d.cfg' % (name, n))
        with open(cfgf, 'w') as f:
            f.write(cfg)
        meta = self.path('%s-%d.meta' % (name, n))
        tmp = self.path('%s-%d.tmp' % (name, n)); os.makedirs(tmp)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + tmp]
        if deque:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-cp', '%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (cls, TLA, TLA), 'tlc2.TLC',
                '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config', cfgf, *extra,
                os.path.join(VERIF, 'spec', module + '.tla')]
        rc, o, e = sh(cmd, timeout=timeout, env=env, cwd=os.path.join(VERIF, 'spec'))
        shutil.rmtree(meta, ignore_errors=True); shutil.rmtree(tmp, ignore_errors=True)
        with open(self.path('%s-%d.out' % (name, n)), 'w') as f:
            f.write(' '.join(cmd) + '\n' + o + e)
        r = TlcResult()
        r.rc, r.out, r.err, r.log = rc, o, e, self.path('%s-%d.out' % (name, n))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', o)
        r.gen, r.states = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r.rejects = re.findall(r'^<<\s*"REJECT".*?(?=^[A-Z]|\Z)', o, re.M | re.S)
        r.done = rc == 0 and 'No error has been found' in o
        if '-simulate' in extra:
            r.done = rc == 0 and 'Error' not in o
        return r

    def model_check(self, module, cfg, what, **kw):
        """exhaustive exploration of the specification itself; a failure is an error of the
        model, never a verdict on the code"""
        r = self.tlc(module, cfg, **kw)
        if not r.done:
            r = self.tlc(module, cfg, **kw)
        if not r.done:
            raise ToolError('model %s does not satisfy its own properties or TLC failed: %s' % (module, tail(r.out + r.err)))
        self.count('states', r.states); self.count('transitions', r.gen)
        self.sample({'model': what, 'distinct_states': r.states}, 20)
        self.cov.setdefault('models', []).append({'what': what, 'module': module, 'distinct_states': r.states, 'generated': r.gen})
        return r

    def validate(self, module, trace, cfg=None, env=None, nlines=None, traces=1, **kw):
        """is the recorded execution a behaviour of the specification?"""
        if nlines is None:
            with open(trace) as f:
                nlines = sess = 0
                for x in f:
                    nlines += 1
                    sess += '"session"' in x[:24] or '"begin"' in x[:24]
            traces = max(sess, traces)
        e = {'TRACE': trace}; e.update(env or {})
        cfg = cfg or 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
        for attempt in (0, 1):
            r = self.tlc(module, cfg, env=e, **kw)
            if r.rejects:
                # repeat before reporting
                r2 = self.tlc(module, cfg, env=e, **kw)
                if r2.rejects:
                    raise Violation('trace rejected by %s: %s' % (module, ' '.join(r2.rejects[0].split())[:1500]), [trace, r2.log])
                continue
            if r.done and r.states >= nlines:
                break
        else:
            raise ToolError('TLC failed on %s: %s' % (module, tail(r.out + r.err)))
        for k in re.findall(r'<<\s*"KNOWN",\s*"([^"]+)"', r.out):
            with self.lock:
                self.known_seen[k] = self.known_seen.get(k, 0) + 1
        self.count('states', r.states); self.count('transitions', r.gen)
        self.count('traces_validated_against_impl', traces)
        self.count('trace_events_validated', nlines)
        if not self.quick and os.environ.get('KV_VERBOSE'):
            print('validated', module, nlines, flush=True)
        return r

    def parallel(self, jobs):
        """jobs: list of callables; all run, the first violation (in order) is raised"""
        futs = [self.pool.submit(j) for j in jobs]
        res, viol, err = [], None, None
        for f in futs:
            try:
                res.append(f.result())
            except Violation as v:
                viol = viol or v; res.append(None)
            except ToolError as t:
                err = err or t; res.append(None)
        if viol: raise viol
        if err: raise err
        return res

def tail(s, n=1500):
    return s[-n:]

def first_error(e):
    for l in e.splitlines():
        if 'error' in l: return l.strip()[:300]
    return e[:300]

def load_known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'(known|fixed): property=(\S+) (\S+) (.*)', l)
            if m: out.append(dict(kind=m.group(1), property=m.group(2), key=m.group(3), text=m.group(4)))
    return out

def main(argv):
    pid = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1: tier = argv[1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    mod = importlib.import_module('checks')
    entry = mod.CHECKS[pid]
    ctx = Ctx(pid, seed, tier)
    rc, viol = 2, 0
    keep = False
    try:
        try:
            entry['run'](ctx)
            unlisted = [k for k in ctx.known_seen if not any(f['kind'] == 'known' and f['property'] == pid and f['key'] == k for f in ctx.known)]
            if unlisted:
                raise Violation('finding not listed in known-findings.txt: %s' % unlisted)
            for f in ctx.known:
                if f['kind'] == 'known' and f['property'] == pid:
                    print('KNOWN-FINDING: property=%s %s %s' % (pid, f['key'], f['text']))
                    ctx.cov.setdefault('known_findings_observed', {})[f['key']] = ctx.known_seen.get(f['key'], 0)
            rc = 0
        except Violation as v:
            viol = 1; rc = 1; keep = True
            rd = os.path.join(VERIF, 'build', 'replay', pid)
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            with open(os.path.join(rd, 'violation.txt'), 'w') as f:
                f.write('property %s seed %d tier %s\n%s\n' % (pid, seed, tier, v))
            for fn in v.files:
                if os.path.exists(fn) and os.path.getsize(fn) < 200e6:
                    shutil.copy(fn, rd)
            print(str(v)[:2000])
            print('VIOLATION property=%s replay=%s' % (pid, rd), flush=True)
        except ToolError as t:
            print('TOOL ERROR: %s' % t, file=sys.stderr)
            rc = 2
        if ctx.cov.get('samples') == []:
            ctx.cov['samples'] = ['(stopped before the first sample)'] if rc else ['none recorded']
        ev = dict(property=pid, tier=tier, seed=seed, level=entry.get('level', 'model_checking'), coverage=ctx.cov,
                  assumptions=entry.get('assumptions', []) + ctx.assume, wall_s=round(time.time() - t0, 2), violations=viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
        print('%s: %s in %.1f s (%d trace events, %d states)' % (pid, {0: 'held', 1: 'VIOLATED', 2: 'error'}[rc], time.time() - t0,
              ctx.cov.get('trace_events_validated', 0), ctx.cov['states']), flush=True)
    finally:
        ctx.pool.shutdown(wait=True)
        if os.environ.get('KV_KEEP') != '1':
            shutil.rmtree(ctx.work, ignore_errors=True)
        else:
            print('kept', ctx.work)
    return rc
