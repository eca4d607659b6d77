from kv import *
from checks import check
import avrnum

FR = {8: list(range(8)), 16: list(range(16)), 32: [0, 1, 5, 8, 15, 16, 20, 23, 24, 29, 30, 31]}

def drivers(c):
    # -fwrapv: operands whose exact result does not fit are executed, too, but prescribe nothing
    ws = [8, 16, 32]
    return dict(zip(ws, c.parallel([lambda w=w: c.cxx('fx%d' % w, 'fixed_drv.cpp', ['-O1', '-fwrapv', '-DKV_W=%d' % w]) for w in ws])))

def mc(c):
    jobs = [lambda F=F: c.model_check('FixedMC', 'SPECIFICATION Spec\nCONSTANT W = %d\nCONSTANT F = %d\nINVARIANT Closed RoundTrips SumsExact ProductDown QuotientIn OrderReal ProductInverse\nCHECK_DEADLOCK FALSE\n' % (c.scale(5, 6), F),
            'all programs over two %d-bit numbers with %d fractional bits' % (c.scale(5, 6), F)) for F in (0, 2, 4)]
    return jobs

AVR_FORMATS = [(8, 0), (8, 4), (8, 7), (16, 0), (16, 8), (16, 15), (32, 0), (32, 16), (32, 23), (32, 31)]
AVR_WHAT = {'conv': 0, 'arith': 1, 'cmp': 2}

def go(c, what, sizes):
    d = drivers(c)
    def job(w, fs, k):
        t = c.path('%s-%d-%d.nd' % (what, w, k))
        with open(t, 'w') as f:
            for F in fs:
                part = c.path('part-%d-%d-%d' % (w, F, k))
                c.run([d[w], what, w, F, c.seed * 100 + k, sizes[w]], out=part, what='fixed_point driver')
                with open(part) as g: f.write(g.read())
                os.unlink(part)
        c.validate('FixedTrace', t, traces=len(fs))
    jobs = mc(c)
    if what in AVR_WHAT:
        avrnum.simulator(c)
        for w, F in AVR_FORMATS:
            jobs.append(avrnum.firmware(c, 'fx%d-%d' % (w, F), ['-DKV_FX=%d' % w, '-DKV_FRAC=%d' % F], [c.seed * 100 + i for i in range(c.scale(1, 4))],
                                        c.scale(25, 150) * (2 if what == 'cmp' else 1), AVR_WHAT[what], 'FixedTrace'))
    for w in (8, 16, 32):
        for k in range(c.scale(4 if w == 8 else 3, 4 if w == 8 else 8)):
            fs = FR[w][k % 4::4] if w == 8 else FR[w]
            jobs.append(lambda w=w, fs=fs, k=k: job(w, fs, k))
    c.parallel(jobs)
    c.sample({'driver': 'fixed_drv %s 16 F %d %d for every F' % (what, c.seed * 100, sizes[16])})

@check('X01', 'TLA+ specification of fixed-point conversion; trace validation, exhaustive for 8-bit formats',
       'Every representation of every 8-bit format and boundary and random representations of 16- and 32-bit formats are constructed from integers (seven types), float, double, long double and raw values and converted back, on the host and (ten formats) on the ATmega328P simulator; TLC compares with the specification in exact rationals.')
def X01(c): go(c, 'conv', {8: 1, 16: 1, 32: 1})

@check('X02', 'TLA+ specification of fixed-point arithmetic; trace validation, exhaustive for 8-bit formats; random programs replayed against the state machine',
       'All operand pairs of all eight 8-bit formats, boundary-biased and random pairs of all 16-bit and twelve 32-bit formats, binary and compound forms, mixed operand types, and random programs over four variables; ten formats also on the ATmega328P simulator (16-bit int); exact.')
def X02(c):
    go(c, 'arith', {8: 1, 16: c.scale(3000, 30000), 32: c.scale(3000, 30000)})
    go(c, 'prog', {8: c.scale(400, 4000), 16: c.scale(400, 4000), 32: c.scale(400, 4000)})

@check('X03', 'TLA+ specification of fixed-point order; trace validation, exhaustive for 8-bit formats',
       'All six operators on all operand pairs of all 8-bit formats, boundary-biased pairs of 16- and 32-bit formats, and mixed with int, long, float and double operands on either side; ten formats also on the ATmega328P simulator.')
def X03(c): go(c, 'cmp', {8: 1, 16: c.scale(3000, 30000), 32: c.scale(3000, 30000)})
