"""num and dsp::kalman executed on the ATmega328P: firmware from avr_num_fw.cpp, run in the
instruction simulator, its records validated like those of the host drivers."""
from kv import *
from c_mcu import AVR, host_cxx, self_test

def build(c, flags, opt='-Os'):
    """None when the headers no longer compile for the AVR: nothing to execute there"""
    out = c.path('num%s.elf' % abs(hash((tuple(flags), opt))))
    cmd = AVR + [opt, '-fwrapv', *flags, '-I', os.path.join(REPO, 'include'), os.path.join(VERIF, 'harness', 'avr_num_fw.cpp'),
                 '-Wl,--defsym=__TEXT_REGION_LENGTH__=128K', '-o', out]
    for attempt in (0, 1):
        rc, o, e = sh(cmd, timeout=400)
        if rc == 0: return out
    if rc is None or 'Killed' in e or 'internal compiler error' in e or 'No space left' in e or 'will not fit' in e:
        raise ToolError('avr-g++ failed: ' + e[-500:])
    c.assume.append('does not compile for the AVR (%s): %s' % (' '.join(flags), first_error(e)))
    return None

def simulator(c):
    c.parallel([lambda: host_cxx(c, 'avr_num_drv.cpp', 'avr_num')])
    self_test(c, ['-Os'])
    return c.path('avr_num')

def firmware(c, tag, flags, seeds, size, what, module, env=None, opt='-Os', traces=None):
    """jobs: build once, execute with every seed, validate"""
    def job(elf, s, k):
        t = c.path('avr-%s%s-%d.nd' % (tag, opt, k))
        for attempt in (0, 1):
            with open(t, 'w') as so:
                rc, o, e = sh([c.path('avr_num'), elf, str(s), str(size), str(what)], stdout=so, timeout=600)
            if rc == 0: break
        else:
            log = c.path('avr-%s.log' % tag); open(log, 'w').write(e)
            if rc == 3: raise Violation('on the ATmega328P: ' + e[-300:], [log, t])
            raise ToolError('simulation failed (%s): %s' % (rc, e[-300:]))
        c.count('avr_instructions_executed', int(e.split()[0]))
        c.validate(module, t, env=env, traces=traces or 1)
        os.remove(t)
    def all_():
        elf = build(c, flags, opt)
        if elf:
            for k, s in enumerate(seeds): job(elf, s, k)
    return all_
