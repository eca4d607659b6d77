from kv import *
from checks import check
from c_mcu import host_cxx
import random

PTRACE = 'SPECIFICATION TraceSpec\nCONSTANT Ten = 10\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
EXAMPLE = dict(blink='avr-blink-led.e.cpp', blinkisr='avr-blink-led-isr.e.cpp', adcisr='avr-adc-isr.e.cpp',
               dac='avr-adc-dac-isr-atmega.e.cpp', fade='avr-fade-led.e.cpp', none='avr-kalman-sim.e.cpp')
BASE = ['avr-g++', '-std=c++17', '-w', '-mmcu=atmega328p']

def program(c, name, src, opts):
    """a program of the repository for the ATmega328P"""
    out = c.path(name + '.elf')
    cmd = BASE + ['-I', os.path.join(REPO, 'include')] + list(opts) + [os.path.join(REPO, src), '-o', out, '-lm']
    for attempt in (0, 1):
        rc, o, e = sh(cmd, timeout=400)
        if rc == 0: return out
    log = c.path(name + '.compile.log')
    open(log, 'w').write(' '.join(cmd) + '\n' + o + e)
    if rc is None or 'Killed' in e or 'internal compiler error' in e or 'No space left' in e:
        raise ToolError('avr-g++ failed: ' + e[-500:])
    raise Violation('%s no longer compiles: %s' % (src, first_error(e)), [log])

def watch(c, drv, elf, prog, work, seed, events):
    """execute it, with hardware events at any instruction, and validate the recording"""
    t = c.path('%s-%d.nd' % (os.path.basename(elf), seed))
    for attempt in (0, 1):
        with open(t, 'w') as so:
            rc, o, e = sh([drv, elf, prog, str(work), str(seed), str(events)], stdout=so, timeout=600)
        if rc == 0: break
    if rc == 3: raise Violation('%s: %s' % (prog, e[-300:]), [t])
    if rc != 0: raise ToolError('simulation failed (%s): %s' % (rc, e[-300:]))
    m = re.search(r'(\d+) instructions', e)
    c.count('instructions_simulated', int(m.group(1)) if m else 0)
    c.validate('ProgTrace', t, cfg=PTRACE, heap='4g')
    os.remove(t)

def prog_model(c, prog, fast, sec):
    props = dict(dac='PROPERTY Lights Lossless Responds', adcisr='PROPERTY Follows', blinkisr='')[prog]
    c.model_check('ProgMC', 'SPECIFICATION Spec\nCONSTANTS\n Ten = 2\n Fast = %s\n MaxSec = %d\n Levels = {0, 511, 512, 1023}\nINVARIANT DacRange OnlyTheLed NeverMore EverySecond\n%s\nCHECK_DEADLOCK FALSE\n'
                  % (fast, sec, props), 'program %s, %s' % (prog, 'settles between ticks' if fast == 'TRUE' else 'ticks at any moment'), env=dict(PROG=prog), workers=2, name='mc-%s-%s' % (prog, fast))

@check('E01', 'TLA+ model of the programs as reactive systems (Programs.tla), model checked in an arbitrary environment (ProgMC.tla); the compiled programs run in an instruction simulator with interrupts, conversions and pin changes at random instructions, every store to an I/O register validated as a behaviour of the model',
       'The six AVR programs of example/avr; -Os, -O2 (thorough also -O1, -O3), the options of the make scripts; thousands of interrupts per run. Real time is the number of instructions and of timer interrupts, not measured in cycles.')
def E01(c):
    host_cxx(c, 'avr_prog_drv.cpp', 'avr_prog_drv')
    drv = c.path('avr_prog_drv')
    hz = ['-DF_CPU_HZ=16000000L']
    n = dict(blinkisr=c.scale(12000, 60000), adcisr=c.scale(1200, 8000), dac=c.scale(18000, 60000), fade=c.scale(5000000, 26000000), none=0)
    os_ = c.scale(['-Os', '-O2'], ['-Os', '-O2', '-O1', '-O3'])
    jobs = [lambda p=p, f=f: prog_model(c, p, f, c.scale(3, 4)) for p in ('dac', 'adcisr', 'blinkisr') for f in ('TRUE', 'FALSE')]
    def one(p, o, s, more=(), events=None, work=1):
        tag = '%s%s%s' % (p, o, ''.join(more).replace('=', '').replace('-D', '-'))
        elf = c.path(tag + '.elf')
        if not os.path.exists(elf): elf = program(c, tag, 'example/avr/' + EXAMPLE[p], hz + [o] + list(more))
        watch(c, drv, elf, p, work, c.seed * 100 + s, events if events is not None else n[p])
        c.sample({'program': p, 'options': [o] + list(more), 'events': events if events is not None else n[p]}, 24)
    def many(p, o):
        for s in range(c.scale(1, 3) if p != 'none' else 1):
            if p == 'blink':
                one(p, o, s, ['-Dled_FEATURE_BLINK_MS=%d' % (1, 5, 7)[s]], 40)
            elif p == 'none':
                for t in ('double', 'fp32_t'): one(p, o, s, ['-DKE_NUMERIC_TYPE=' + t])
            else: one(p, o, s)
    jobs = [lambda p=p, o=o: many(p, o) for p in ('fade', 'dac', 'blinkisr', 'adcisr', 'blink', 'none') for o in os_] + jobs
    c.parallel(jobs)

@check('E02', 'TLA+ specification of the estimator recursion and of the toggling program; executions of the timing program on the simulated processor and of its estimator on the host validated with TLC',
       'Both numeric types, updated and held gain, -Os, -O2 with and without link-time optimization; the estimator of the program for random models and histories (double).',
       assumptions=['one update takes 0.6 to 1.6 times the instructions of an update in a reference loop compiled from the same estimator'])
def E02(c):
    host_cxx(c, 'avr_prog_drv.cpp', 'avr_prog_drv')
    drv = c.path('avr_prog_drv')
    stub = c.path('stub/avr'); os.makedirs(stub)
    open(stub + '/io.h', 'w').write('#include <cstdint>\ninline uint8_t volatile DDRB, PORTB, PINB;\n#define PB5 5\n#define DDB5 5\n#define PORTB5 5\n')
    def timed(t, u, o, lto):
        tag = 'time-%s-%d%s%s' % (t, u, o, '-lto' if lto else '')
        opt = ['-DF_CPU_HZ=16000000', '-DKE_NUMERIC_TYPE=' + t, '-DKE_UPDATE_KALMAN_GAIN=%d' % u, o] + (['-flto'] if lto else [])
        elf = program(c, tag, 'time/avr-kalman-time.cpp', opt)
        n = c.scale(200, 1500)
        lo, hi, took = 250 if u else 25, 1000000, [0]
        try: ref = program(c, tag + '-ref', os.path.join(VERIF, 'harness', 'avr_time_ref.cpp'), opt + ['-I', REPO])
        except Violation: ref = None                # the program compiles, but names things differently
        if ref:
            rc, o_, e = sh([drv, ref, 'time', '0:0', '1', str(n)], timeout=600)
            took = sorted(json.loads(x)['dt'] for x in o_.splitlines()[4:] if '"w"' in x)
            if rc or not took or took[0] < 25: raise ToolError('no reference for %s: %s %s' % (tag, rc, took[:3]))
            # a held gain is whatever was in memory: shortcuts for special values are possible
            if u: lo, hi = took[0] * 6 // 10, took[-1] * 16 // 10
            else: hi = 40000 if t == 'double' else took[-1] * 3
        watch(c, drv, elf, 'time', '%d:%d' % (lo, hi), c.seed, n)
        c.sample({'program': tag, 'instructions_per_update': [took[0], took[-1]], 'accepted': [lo, hi]}, 24)
    def host(u, s):
        tag = 'timing%d' % u
        t = c.path('%s-%d.nd' % (tag, s))
        c.run([c.path(tag), 'double', c.seed * 100 + s, c.scale(12, 30), c.scale(40, 200)], t)
        c.validate('KalmanRealTrace', t, env=dict(WHAT='timed' if u else 'held', TOL='42', COND='20', ETA='-1060'))
        os.remove(t)
    inc = ['-O1', '-I', c.path('stub'), '-I', REPO]
    built = c.parallel([lambda: c.cxx('timing0', 'timing_drv.cpp', inc + ['-DKE_UPDATE_KALMAN_GAIN=0'], optional=True), lambda: c.cxx('timing1', 'timing_drv.cpp', inc, optional=True)])
    if not all(built): c.assume.append('the estimator of the timing program has another interface: not driven on the host')
    c.parallel([lambda u=u, s=s: host(u, s) for u in (1, 0) if built[u] for s in range(c.scale(3, 10))] +
               [lambda t=t, u=u, o=o, f=f: timed(t, u, o, f) for t in ('double', 'fp32_t') for u in (1, 0) for o in c.scale(('-Os', '-O2'), ('-Os', '-O2', '-O1', '-O3')) for f in (False, True)])

# ---- build scripts ------------------------------------------------------------

class Chain:
    """a tool chain of stand-ins in a scratch directory"""
    def __init__(self, c, name):
        self.c, self.root = c, c.path(name); b = self.root + '/chain/bin'
        os.makedirs(b); os.makedirs(self.root + '/work'); os.makedirs(self.root + '/path')
        for t in ('avr-g++', 'avr-objcopy', 'avr-size', 'avrdude'): self.tool(b + '/' + t)
        os.symlink(sys.executable, self.root + '/path/python')
        self.tool(self.root + '/path/cl')
        self.log, self.out, self.n = self.root + '/log', c.path(name + '.nd'), 0
        open(self.out, 'w').close()
        self.cwd = self.root + '/work'
    def tool(self, p):
        open(p, 'w').write('#!%s\n' % sys.executable + open(os.path.join(VERIF, 'harness', 'tools', 'standin.py')).read())
        os.chmod(p, 0o755)
    def call(self, want, args, real=False, cwd=None):
        open(self.log, 'w').close()
        env = dict(AVR_GCC_ROOT=self.root + '/chain', KV_LOG=self.log, KV_REAL='1' if real else '', PATH=self.root + '/path:' + os.environ.get('PATH', '/usr/bin:/bin') + ':.')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        rc, o, e = sh([sys.executable] + args, cwd=cwd or self.cwd, env=env, timeout=600)
        with open(self.out, 'a') as f:
            f.write(json.dumps(dict(ev='session', want=want, args=args)) + '\n' + open(self.log).read())
            said = re.search(r'processed (\d+) file', o)
            f.write(json.dumps(dict(ev='end', said=int(said.group(1)) if said else 0 if 'no files' in o else -1)) + '\n')
        if rc != 0:
            log = self.c.path('script.log'); open(log, 'w').write('%s\n%s\n%s' % (args, o, e))
            raise Violation('%s ended with status %s: %s' % (' '.join(args), rc, e[-300:]), [log, self.out])
        self.n += 1
        return o

def invocations(c, k):
    """random invocations of avr-gcc.py"""
    ch, r = Chain(c, 'chain%d' % k), random.Random('W01/%d/%d' % (c.seed, k))
    script = os.path.join(REPO, 'script', 'avr-gcc.py')
    for i in range(c.scale(25, 150)):
        shutil.rmtree(ch.cwd); os.makedirs(ch.cwd + '/sub')
        names = []
        for n in range(r.choice((0, 1, 1, 1, 2, 3, 4))):
            base = r.choice(('', 'sub/', './')) + r.choice(('main', 'avr-blink-led.e', 'x', 'a.b', 'kalman_1')) + str(n)
            names.append((base, base + r.choice(('.cpp', '.cpp', '.c', '.cxx'))))
        for b, f in names: open(os.path.join(ch.cwd, f), 'w').write('int main() {}\n')
        want = dict(kind='build', files=[dict(name=f, base=b) for b, f in names], std='c++17', O='2', mcu='atmega328p', fcpu='16000000',
                    D=[], I=[], verbose=0, out=names[0][0] if names else '')
        opt = []
        if r.random() < .5: want['O'] = r.choice(('0', '1', 's', '3', 'fast')); opt.append([r.choice(('-O' + want['O'], '-O ' + want['O']))])
        if r.random() < .5: want['std'] = r.choice(('c++11', 'c++14', 'gnu++17', 'c++2a')); opt.append([r.choice(('-std=', '-std ')) + want['std']])
        if r.random() < .5: want['mcu'] = r.choice(('atmega2560', 'attiny85', 'atmega168')); opt.append([r.choice(('-mmcu=', '-mmcu ')) + want['mcu']])
        if r.random() < .5: want['fcpu'] = r.choice(('8000000', '1000000L', '20000000UL')); opt.append([r.choice(('-fcpu=', '-fcpu ')) + want['fcpu']])
        for n in range(r.choice((0, 0, 1, 2, 3))):
            d = r.choice(('KE_NUMERIC_TYPE=fp32_t', 'NDEBUG', 'KE_UPDATE_KALMAN_GAIN=0', 'X=%d' % n)); want['D'].append(d); opt.append([r.choice(('-D', '-D ')) + d, 'D'])
        for n in range(r.choice((0, 0, 1, 2))):
            d = r.choice(('../include', '/opt/x', 'lib%d' % n)); want['I'].append(d); opt.append([r.choice(('-I', '-I ')) + d, 'I'])
        v = r.choice(('', '', '-v', '-vv', '-vvv', '-v -v'))
        want['verbose'] = v.count('v')
        if v: opt.append([v])
        if r.random() < .3: opt.append([r.choice(('-d', '-dd', '--debug'))])
        if names and r.random() < .4: want['out'] = r.choice(('prog', 'sub/out', 'p.q')); opt.append([r.choice(('--output ', '--output=')) + want['out']])
        macros = r.random() < .12
        if macros: want['kind'] = 'macros'; opt.append([r.choice(('-m', '--macros'))])
        # any order, but definitions and directories among themselves as they are
        r.shuffle(opt)
        for t in ('D', 'I'):
            at = [i for i, x in enumerate(opt) if x[-1] == t]; back = iter(want[t])
            for i in at: opt[i] = ['-' + t + r.choice(('', ' ')) + next(back), t]
        given = [f for b, f in names]
        if r.random() < .2: given.insert(r.randrange(len(given) + 1), 'absent.cpp')
        ch.call(want, [script] + [w for x in opt for w in x[0].split(' ')] + given)
        c.sample({'invocation': ' '.join(w for x in opt for w in x[0].split(' ')) + ' ' + ' '.join(given)}, 12)
    hexes = [x + '.hex' for x in ('a', 'main-avr.t', 'sub/b')]
    for h in hexes: ch.call(dict(kind='upload', mcu='atmega328p', out=h), [os.path.join(REPO, 'script', 'avr-upload.py'), h])
    ch.call(dict(kind='macros', mcu='atmega328p', std=''), [os.path.join(REPO, 'script', 'avr-gcc-predefined.py')])
    c.validate('BuildTrace', ch.out)

def make(c, drv, where, script, prog, events):
    """a make script in a copy of the repository, with the real compiler"""
    tag = script.replace('.py', '')
    ch = Chain(c, tag)
    tree = ch.root + '/tree'; os.makedirs(tree)
    for d in ('include', 'script', where): shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d), ignore=shutil.ignore_patterns('*.o', '*.hex', '*.elf'))
    cwd = os.path.join(tree, where)
    said = ch.call(dict(kind='time' if prog == 'time' else 'make'), [script], real=True, cwd=cwd)
    if script == 'mk-avr-kalman-sim.e.py' and 'no files' in said and not open(ch.log).read() and not os.path.exists(cwd + '/avr-kalman-sim.cpp') and re.search(r' avr-kalman-sim\.cpp\s', said):
        with c.lock: c.known_seen['mk-avr-kalman-sim'] = 1       # names a file that does not exist, and runs no tool
        return
    c.validate('BuildTrace', ch.out)
    elfs = sorted(f for f in os.listdir(cwd) if f.endswith('.elf'))
    if not elfs: raise Violation('%s: no program' % script, [ch.out])
    if prog:
        for f in elfs:                      # and what it made is that program
            to = c.path(tag + '-' + f); shutil.copy(os.path.join(cwd, f), to)
            watch(c, drv, to, prog, 25 if 'fixed' in f else 250 if prog == 'time' else 1, c.seed, events)
        with c.lock: c.known_seen.pop('heartbeat-251-steps', None)      # a finding about the source (E01), not about how it is built
    shutil.rmtree(ch.root)

@check('W01', 'TLA+ model of the tool chain as provenance of files (BuildTrace.tla); the real scripts run against stand-ins for the tools that record every call, and every recorded pipeline is validated with TLC; programs made by the make scripts are run in the simulator and validated against Programs.tla',
       'Random invocations of avr-gcc.py (files, output, standard, optimization, processor, clock, definitions, directories, verbosity, macros), avr-upload.py, avr-gcc-predefined.py; all make scripts with the real compiler in a copy of the tree.')
def W01(c):
    host_cxx(c, 'avr_prog_drv.cpp', 'avr_prog_drv')
    drv = c.path('avr_prog_drv')
    mk = [('example/avr', 'mk-avr-blink-led.e.py', 'blink', 4), ('example/avr', 'mk-avr-blink-led-isr.e.py', 'blinkisr', 2500), ('example/avr', 'mk-avr-adc-isr.e.py', 'adcisr', 300),
          ('example/avr', 'mk-avr-adc-dac-isr-atmega.e.py', 'dac', 2500), ('example/avr', 'mk-avr-fade-led.e.py', 'fade', 1000000), ('example/avr', 'mk-avr-kalman-sim.e.py', 'none', 0),
          ('time', 'mk-avr-kalman-time.py', 'time', 40), ('test', 't-avr.py', '', 0)]
    mk = [m for m in mk if os.path.exists(os.path.join(REPO, m[0], m[1]))]
    c.parallel([lambda m=m: make(c, drv, *m) for m in reversed(mk)] + [lambda k=k: invocations(c, k) for k in range(c.scale(4, 16))])
