from kv import *
from checks import check
import re

AVR = ['avr-g++', '-std=c++17', '-w', '-fno-exceptions', '-fno-threadsafe-statics', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L']

def firmware(c, part, opt):
    """the driver functions compiled for the ATmega328P from /repo's headers"""
    out = c.path('p%d%s.elf' % (part, opt))
    cmd = AVR + [opt, '-DKV_PART=%d' % part, '-I', os.path.join(REPO, 'include'), os.path.join(VERIF, 'harness', 'avr_regs.cpp'),
                 '-Wl,--defsym=__TEXT_REGION_LENGTH__=64K', '-o', out]
    for attempt in (0, 1):
        rc, o, e = sh(cmd, timeout=400)
        if rc == 0: return out
    log = c.path('p%d.compile.log' % part)
    open(log, 'w').write(' '.join(cmd) + '\n' + o + e)
    if rc is None or 'Killed' in e or 'internal compiler error' in e or 'No space left' in e:
        raise ToolError('avr-g++ failed: ' + e[-500:])
    raise Violation('register layer no longer compiles for the AVR: ' + first_error(e), [log])

def self_test(c, options, host=None):
    """plain functions executed in the simulator must do what they do on the host"""
    if host is None:
        host_cxx(c, 'avr_self.cpp', 'self'); host = c.path('self')
    def self(opt):
        elf = c.path('self%s.elf' % opt)
        rc, o, e = sh(AVR + [opt, '-fwrapv', os.path.join(VERIF, 'harness', 'avr_self.cpp'), '-Wl,--defsym=__TEXT_REGION_LENGTH__=64K', '-o', elf])
        if rc != 0: raise ToolError('simulator self-test does not compile: ' + e[-300:])
        rc, o, e = sh([host, elf, str(c.seed), str(c.scale(300, 5000))])
        if rc != 0: raise ToolError('simulator self-test failed: ' + e[-600:])
        c.count('simulator_self_test_calls', int(o.split()[0]))
    c.parallel([lambda o=o: self(o) for o in options])

def simulator(c):
    """build the simulator and check it against the host on plain functions"""
    drv, host = c.parallel([lambda: c.path('avr_drv') if host_cxx(c, 'avr_drv.cpp', 'avr_drv') else None,
                            lambda: c.path('self') if host_cxx(c, 'avr_self.cpp', 'self') else None])
    self_test(c, c.scale(['-Os', '-O2'], ['-O0', '-O1', '-O2', '-O3', '-Os']), host)
    return drv

def host_cxx(c, src, name):
    rc, o, e = sh(['g++', '-std=c++17', '-O2', '-w', '-fwrapv', '-I', os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', src), '-o', c.path(name)], timeout=400)
    if rc != 0: raise ToolError('simulator does not compile: ' + e[-300:])
    return True

def simulate(c, drv, args, out):
    for attempt in (0, 1):
        with open(out, 'w') as so:
            rc, o, e = sh([drv] + [str(a) for a in args], stdout=so, timeout=600)
        if rc == 0: return out
    log = c.path('simulation.log')
    open(log, 'w').write('%s\nrc=%s\n%s\n' % (' '.join([drv] + [str(a) for a in args]), rc, e))
    if rc == 3: raise Violation('compiled code: ' + e[-300:], [log, out])
    raise ToolError('simulation failed (%s): %s' % (rc, e[-300:]))

CFG = 'SPECIFICATION Spec\nINVARIANT Shown\nCHECK_DEADLOCK FALSE\n'

def commands(c, part, keep=lambda o, n: True, length=0, num=0, fresh=True):
    """commands generated by TLC from McuGen: all of them, or random histories"""
    extra = ('-simulate', 'num=%d' % num, '-depth', str(length + 1), '-seed', str(c.seed)) if length else ()
    for attempt in (0, 1):
        r = c.tlc('McuGen', CFG, env=dict(PART=str(part), LEN=str(length), DEEP=c.scale('0', '1')), extra=extra, name='gen-%d-%d' % (part, length))
        if r.done: break
    else:
        raise ToolError('generation failed: ' + tail(r.out + r.err))
    out, n = [], 0
    cmds = re.findall(r'<<\s*"CMD",\s*"(\w+)",\s*(?:"(\w+)"|(\d+)),\s*<<([^>]*)>>\s*>>', r.out)
    c.count('commands_generated_by_TLC', len(cmds))
    for k, (o, s, a, args) in enumerate(cmds):
        if length and k % length == 0: out.append('hw 2')
        if not keep(o, s or a): continue
        if not length and fresh: out.append('hw %d' % (2 if n % 5 else n // 5 % 3))
        n += 1
        out.append('%s %s %s' % (o, s or a, ' '.join(args.replace(',', ' ').split())))
    if not length and fresh:
        # an operation with few arguments may look right by chance: run each from several contents
        byop = {}
        for l in out:
            if not l.startswith('hw'): byop.setdefault(tuple(l.split()[:2]), []).append(l)
        for ls in byop.values():
            k = 0
            while len(ls) + k < 9:
                out += ['hw %d' % (2 if k > 1 else k), ls[k % len(ls)]]; k += 1; n += 1
    if n == 0: raise ToolError('no commands generated: ' + tail(r.out))
    if not fresh and not length: out.insert(0, 'hw 2')
    f = c.path('cmd-%d-%d.txt' % (part, length))
    open(f, 'w').write('\n'.join(out) + '\n')
    c.sample({'commands': n, 'part': part, 'history_length': length, 'example': out[len(out) // 2]})
    return f

def replay(c, drv, elf, script, tag, pieces=1):
    """run the commands on the simulated hardware and validate every access"""
    lines = open(script).read().splitlines()
    # pieces start at a fresh hardware state
    starts = [i for i, l in enumerate(lines) if l.startswith('hw')] or [0]
    cut = sorted(set(starts[len(starts) * k // pieces] for k in range(pieces))) + [len(lines)]
    def job(k):
        sf, t = c.path('%s-%d.txt' % (tag, k)), c.path('%s-%d.nd' % (tag, k))
        open(sf, 'w').write('\n'.join(lines[cut[k]:cut[k + 1]]) + '\n')
        simulate(c, drv, ['ops', elf, sf, c.seed * 100 + k], t)
        c.validate('McuTrace', t)
        os.remove(t)
    return [lambda k=k: job(k) for k in range(len(cut) - 1)]

def opts(c, quick=('-Os', '-O2'), thorough=('-Os', '-O2', '-O1', '-O3', '-O0')):
    return c.scale(quick, thorough)

def build(c, parts, os_):
    jobs = [(p, o) for p in parts for o in os_]
    got = c.parallel([lambda: simulator(c)] + [lambda p=p, o=o: firmware(c, p, o) for p, o in jobs])
    return got[0], dict(zip(jobs, got[1:]))

FOCUS = '{%s}' % ', '.join(str(x) for x in (0x3c, 0x3f, 0x43, 0x44, 0x45, 0x50, 0x69, 0x6e, 0x6f, 0x7a, 0x7b, 0x7c, 0x80, 0x81, 0xb9, 0xba, 0xbc, 0x35, 0x36, 0x3b, 0x3d, 0x68))

def register_model(c):
    c.model_check('McuMC', 'SPECIFICATION Spec\nCONSTANTS Focus = %s\nINVARIANTS ReadBack\nCHECK_DEADLOCK FALSE\n' % FOCUS,
                  'register model: settings and flags from all register contents', workers=4)

TECH = 'TLA+ model of the I/O hardware (Mcu.tla); TLC-generated operations run as compiled AVR code in an instruction simulator, every access to the data space validated against the model with TLC'

@check('U01', TECH, 'all 36 fields of 8-bit registers at three addresses (I/O with and without bit instructions, extended), all 256 contents; 20 fields and 16 bits of 16-bit registers sampled; -Os, -O2 (thorough: every value, -O0 to -O3)')
def u01(c):
    os_ = opts(c)
    drv, elf = build(c, [3], os_)
    c.model_check('McuMC', 'SPECIFICATION Spec\nCONSTANTS Focus = {%s}\nINVARIANTS ReadBack\nCHECK_DEADLOCK FALSE\n' % ', '.join(str(x) for x in (0x44, 0x7a, 0x7c, 0xba)),
                  'register model: set and get of fields from all contents', workers=4)
    def job(o):
        t = c.path('rows%s.nd' % o)
        simulate(c, drv, ['rows', elf[3, o], c.seed, c.scale(0, 1)], t)
        c.validate('McuTrace', t, heap='6g')
        n = sum(1 for _ in open(t)); os.remove(t)
        c.count('operation_tables', n)
    c.parallel([lambda o=o: job(o) for o in os_])

@check('U02', TECH, 'single deferred writes of all fields and registers; all value combinations of 21 joined settings, 9 joins of constants and strobes, 10 joins of arbitrary fields with random (also too wide) values, deferred, named and discarded writes; -Os, -O2 (thorough: -O0 to -O3)')
def u02(c):
    os_ = opts(c, thorough=('-Os', '-O2', '-O1', '-O3', '-O0'))
    drv, elf = build(c, [2, 3], os_)
    script = commands(c, 3)
    def join(o, s):
        t = c.path('join%s-%d.nd' % (o, s))
        simulate(c, drv, ['join', elf[3, o], c.seed * 10 + s, c.scale(60, 800)], t)
        c.validate('McuTrace', t); os.remove(t)
    def single(o):
        t = c.path('single%s.nd' % o)
        simulate(c, drv, ['rows', elf[3, o], c.seed, c.scale(10, 11)], t)
        c.validate('McuTrace', t, heap='6g'); os.remove(t)
    c.parallel([lambda o=o: single(o) for o in os_] + [lambda o=o, s=s: join(o, s) for o in os_ for s in range(c.scale(1, 4))] +
               sum((replay(c, drv, elf[2, o], script, 'j%s' % o, 3) for o in os_), []))

@check('U03', TECH, 'all 241 named registers, fields and pins, every operation, from zero, all-ones and random contents, and random histories; -Os, -O2 (thorough: longer histories, all values of fields up to 8 bits, -O1, -O3)')
def u03(c):
    os_ = opts(c, thorough=('-Os', '-O2', '-O1', '-O3'))
    drv, elf = build(c, [1], os_)
    a, b = c.parallel([lambda: commands(c, 1), lambda: commands(c, 1, length=60, num=c.scale(20, 400))])
    jobs = []
    for o in os_:
        jobs += replay(c, drv, elf[1, o], a, 'r%s' % o, 2) + replay(c, drv, elf[1, o], b, 'h%s' % o, 2)
    c.parallel(jobs)

def is_flag(o): return o in ('clr', 'flg')

@check('U04', TECH, 'all settings with all values (16-bit: selected), strobes, read-only values and LEDs, from zero, all-ones and random contents of all registers, and random histories; -Os, -O2 (thorough: longer histories, -O0 to -O3)')
def u04(c):
    os_ = opts(c)
    drv, elf = build(c, [2], os_)
    got = c.parallel([lambda: commands(c, 2, keep=lambda o, n: not is_flag(o)), lambda: commands(c, 2, keep=lambda o, n: not is_flag(o), length=60, num=c.scale(20, 400)), lambda: register_model(c)])
    jobs = []
    for o in os_:
        jobs += replay(c, drv, elf[2, o], got[0], 's%s' % o, 2) + replay(c, drv, elf[2, o], got[1], 'h%s' % o, 2)
    c.parallel(jobs)

@check('U05', TECH, 'all 31 flag operations, all combinations of pending flags and control bits in the register (quick: half of the contents of the mixed registers), random contents elsewhere; -Os, -O2 (thorough: -O0 to -O3, random histories)')
def u05(c):
    os_ = opts(c)
    drv, elf = build(c, [1, 2], os_)
    c.parallel([lambda: register_model(c)])
    scripts = c.parallel([lambda: commands(c, 4, fresh=False), lambda: commands(c, 5, fresh=False)])
    hist = c.parallel([lambda p=p: commands(c, p, keep=lambda o, n: is_flag(o) or o == 'poke', length=80, num=c.scale(6, 150)) for p in (1, 2)])
    jobs = []
    for o in os_:
        jobs += replay(c, drv, elf[2, o], scripts[0], 'f%s' % o) + replay(c, drv, elf[1, o], scripts[1], 'g%s' % o)
        jobs += replay(c, drv, elf[1, o], hist[0], 'h1%s' % o) + replay(c, drv, elf[2, o], hist[1], 'h2%s' % o)
    c.parallel(jobs)

ATECH = 'TLA+ model of interleaving at byte accesses checked exhaustively (AtomicMC.tla, which finds the torn values without guard); compiled AVR code run with an interrupt at every instruction boundary, outcomes validated with TLC'

@check('U06', ATECH, 'an interrupt at every instruction boundary of reads and writes of 8, 16, 32 bit values and of a 16-bit timer register; guards left by fall-through, return, loop and around calls; saved status register; -Os, -O2 (thorough: -O0 to -O3, more values)')
def u06(c):
    os_ = opts(c)
    drv, elf = build(c, [1, 4], os_)
    def mc(size, guard, write, hw, bad=False):
        cfg = 'SPECIFICATION Spec\nCONSTANTS SIZE = %d GUARD = "%s" WRITE = %s HW = %s\nINVARIANTS Whole Enabled\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n' % (size, guard, write, hw)
        if not bad: c.model_check('AtomicMC', cfg, 'guarded access, %d bytes, write %s, timer register %s' % (size, write, hw)); return
        r = c.tlc('AtomicMC', cfg)
        if 'Invariant Whole is violated' not in r.out: raise ToolError('the model no longer distinguishes an unguarded access: ' + tail(r.out))
    script = commands(c, 1, keep=lambda o, n: o == 'scoped')
    def at(o, s):
        t = c.path('atomic%s-%d.nd' % (o, s))
        simulate(c, drv, ['atomic', elf[4, o], c.seed * 10 + s, c.scale(3, 20)], t)
        c.validate('AtomicTrace', t); os.remove(t)
    c.parallel([lambda a=a: mc(*a) for a in ((2, 'full', 'TRUE', 'FALSE'), (4, 'full', 'TRUE', 'FALSE'), (2, 'full', 'FALSE', 'FALSE'), (4, 'full', 'FALSE', 'FALSE'), (2, 'full', 'TRUE', 'TRUE'),
                (2, 'none', 'TRUE', 'FALSE', True), (2, 'none', 'FALSE', 'FALSE', True), (2, 'none', 'TRUE', 'TRUE', True), (2, 'late', 'TRUE', 'FALSE', True), (4, 'early', 'FALSE', 'FALSE', True))] +
               [lambda o=o, s=s: at(o, s) for o in os_ for s in range(c.scale(1, 3))] +
               sum((replay(c, drv, elf[1, o], script, 's%s' % o) for o in os_ if o != '-O0'), []))

TTECH = 'TLA+ protocol machine (Twi.tla) with the polling driver composed with a bus controller of arbitrary delay and status, checked exhaustively incl. liveness (TwiMC.tla); TLC-generated controller scripts run against the compiled AVR code, bus events validated with TLC'

@check('U07', TTECH, 'all 256 addresses, data bytes, all 32 status codes at each of the three steps, delays of 0 to 3000 polls, arbitrary prior contents; initialization with all prescalers (thorough: more combinations, -O0 to -O3)')
def u07(c):
    os_ = opts(c)
    drv, elf = build(c, [5], os_)
    mc = 'SPECIFICATION Spec\nCONSTANTS Bytes = %s Statuses = %s UNSAFE = "%s"\nINVARIANTS NeverBad Success Outcome\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'
    c.model_check('TwiMC', mc % (c.scale('{0, 16, 255}', '{0, 1, 16, 128, 255}'), c.scale('{8, 16, 24, 32, 40, 48, 56, 0, 248, 26}', '{%s}' % ', '.join(str(8 * k) for k in range(32))), ''), 'polling driver and bus controller', workers=4)
    for u in ('no-wait', 'no-status', 'address-twice'):
        r = c.tlc('TwiMC', mc % ('{0, 16}', '{8, 24, 40, 32}', u))
        if 'is violated' not in r.out: raise ToolError('the model no longer rejects the variant %s: %s' % (u, tail(r.out)))
    r = c.tlc('TwiGen', 'SPECIFICATION Spec\n', env=dict(DEEP=c.scale('0', '1')))
    lines = [('write ' if k == 'TWI' else 'init ') + ' '.join(a.replace(',', ' ').split()) for k, a in re.findall(r'<<\s*"(TWI|INI)",\s*([\d,\s]+)>>', r.out)]
    if len(lines) < 1000: raise ToolError('generation failed: ' + tail(r.out))
    c.count('scripts_generated_by_TLC', len(lines))
    c.sample({'scripts': len(lines), 'example': lines[700]})
    f = c.path('twi.txt'); open(f, 'w').write('\n'.join(lines + ['init'] * 30) + '\n')
    def job(o):
        t = c.path('twi%s.nd' % o)
        simulate(c, drv, ['twi', elf[5, o], f, c.seed], t)
        c.validate('TwiTrace', t); os.remove(t)
    c.parallel([lambda o=o: job(o) for o in os_])
