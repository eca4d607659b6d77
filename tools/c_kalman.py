from kv import *
from checks import check
import avrnum

REAL = ['the compiler implements IEEE double/float arithmetic with round-to-nearest and no -ffast-math']

def drivers(c):
    """driver with the exact field instantiation, and (always) the floating-point one"""
    a, b = c.parallel([lambda: c.cxx('kf', 'kalman_drv.cpp', ['-O1', '-DKV_FIELD'], optional=True),
                       lambda: c.cxx('kr', 'kalman_drv.cpp', ['-O2', '-fno-fast-math'])])
    if not a:
        c.assume.append('the templates no longer compile for the exact field type: only floating-point instantiations were checked')
    return a, b

def field(c, drv, seed, sessions, steps, style=0, what='step'):
    t = c.path('field-%d-%d-%s.nd' % (seed, style, what))
    c.run([drv, 'field', seed, sessions, steps, style], out=t, what='kalman<Fp> driver')
    c.validate('KalmanFieldTrace', t, env=dict(WHAT=what), traces=sessions)

def real(c, drv, typ, seed, sessions, steps, style=0, what='step'):
    t = c.path('%s-%d-%d-%s.nd' % (typ, seed, style, what))
    c.run([drv, typ, seed, sessions, steps, style], out=t, what='kalman<%s> driver' % typ)
    env = dict(WHAT=what, TOL='42' if typ == 'double' else '15', COND='20' if typ == 'double' else '8', ETA='-1060' if typ == 'double' else '-140')
    c.validate('KalmanRealTrace', t, env=env, traces=sessions)

def avr(c, what, steps):
    """kalman<float> on the ATmega328P"""
    avrnum.simulator(c)
    return [avrnum.firmware(c, 'kf%d%d' % (M, U), ['-DKV_KALMAN', '-DKV_T=float', '-DKV_M=%d' % M, '-DKV_U=%d' % U], [c.seed * 10 + i for i in range(c.scale(1, 6))],
                            c.scale(6, 20), steps, 'KalmanRealTrace', dict(WHAT=what, TOL='15', COND='8', ETA='-140'), traces=c.scale(6, 20))
            for M, U in ((1, 1), (1, 2), (2, 1), (2, 2))]

def mc(c, n=2):
    c.model_check('KalmanMC', 'SPECIFICATION MCSpec\nCONSTANT MaxN = %d\nINVARIANT TimeIsUpdates StaysSymmetric UniqueGain\nPROPERTY Joseph Independent\nCHECK_DEADLOCK FALSE\n' % n,
                  'Kalman over GF(3), two estimators, %d updates: symmetry, time, unique gain, Joseph form, independence' % n, workers=4)

@check('K01', 'TLA+ trace validation over a finite field (exact) and exact rationals; TLC model checking of the recursion',
       'Recorded histories of kalman<Fp> are compared exactly with the TLA+ recursion (any algebraically equal code passes, any other formula differs), and kalman<double/float> steps (models scaled by 2^-50 to 2^50, negative and zero time steps, scalar and list arguments, lives of 140000 updates reported where their residual is largest) with exact rational arithmetic within a derived rounding bound; kalman<float> also compiled for the ATmega328P and executed on its simulator. Bounded by the sampled histories.',
       assumptions=REAL)
def K01(c):
    kf, kr = drivers(c)
    s = c.seed * 1000
    jobs = [lambda: mc(c, 1 if c.quick else 2)] + avr(c, 'step', 30)
    if kf:
        jobs += [lambda i=i: field(c, kf, s + i, c.scale(12, 60), c.scale(160, 400)) for i in range(c.scale(2, 6))]
        jobs += [lambda: field(c, kf, s + 90, 6, c.scale(900, 6000), 1)]
    jobs += [lambda i=i: real(c, kr, 'double', s + 10 + i, c.scale(12, 36), c.scale(110, 300)) for i in range(c.scale(4, 12))]
    jobs += [lambda: real(c, kr, 'double', s + 30, 6, c.scale(250, 3000), 1)]
    jobs += [lambda i=i: real(c, kr, 'float', s + 50 + i, c.scale(12, 36), c.scale(60, 200)) for i in range(c.scale(1, 4))]
    jobs += [lambda: real(c, kr, 'double', s + 70, 12, c.scale(6, 40), 2)]
    jobs += [lambda t=t: real(c, kr, t, s + 80, 6, c.scale(140000, 1000000), 7) for t in ('double', 'float')]
    c.parallel(jobs)
    c.sample({'driver': 'kalman_drv field %d' % s, 'events': 'session/new/copy/upd/obs/same with full observers'})

@check('K02', 'TLA+ trace validation of multi-instance histories (finite field, double, float); TLC model checking of independence and time',
       'Histories with several live estimators, copies, twins fed identically, repeated observation and up to 140000 updates in a row are checked event by event: time is k*dt, unobserved estimators do not move, equal histories give identical observers; also kalman<float> executed on the ATmega328P simulator. Bounded by the sampled histories.',
       assumptions=REAL)
def K02(c):
    kf, kr = drivers(c)
    s = c.seed * 1000 + 200
    jobs = [lambda: mc(c, 1 if c.quick else 2)] + avr(c, 'obs', 60)
    if kf:
        jobs += [lambda i=i: field(c, kf, s + i, c.scale(30, 120), c.scale(120, 300), 0, 'obs') for i in range(c.scale(3, 8))]
        jobs += [lambda: field(c, kf, s + 40, 12, c.scale(200, 2000), 2, 'obs')]
    jobs += [lambda i=i: real(c, kr, 'double', s + 10 + i, c.scale(24, 96), c.scale(120, 300), 0, 'obs') for i in range(c.scale(3, 8))]
    jobs += [lambda: real(c, kr, 'float', s + 50, c.scale(24, 72), c.scale(100, 200), 0, 'obs')]
    jobs += [lambda i=i: real(c, kr, 'double', s + 70 + i, c.scale(24, 72), c.scale(10, 40), 2, 'obs') for i in range(c.scale(1, 4))]
    jobs += [lambda: real(c, kr, 'float', s + 80, 12, 10, 2, 'obs')]
    jobs += [lambda: real(c, kr, 'double', s + 90, 6, c.scale(140000, 1000000), 7, 'obs')]
    c.parallel(jobs)
    c.sample({'driver': 'kalman_drv double %d 24 120 0' % (s + 10), 'events': 'new/copy/upd/obs/same'})

def psd(c, n):
    c.model_check('KalmanPsd', 'SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANT StaysPsd AlwaysRegular\nPROPERTY Shrinks\nCHECK_DEADLOCK FALSE\n' % n,
                  'Kalman over the rationals from semi-definite covariances, %d updates: covariance stays semi-definite, measurements never enlarge it' % n, workers=4)

@check('K03', 'TLA+ trace validation in exact rationals of covariance histories; TLC model checking over the rationals',
       'Every observed covariance is judged in exact rationals: symmetric, positive semi-definite and not larger than the predicted one, up to rounding scaled by the condition of the step and what the covariance before the step already lacked; twins with other data must agree bitwise, stable models must reach a steady state that forgets the initial covariance; lives of 140000 updates are reported where the covariance is worst. Bounded by the sampled histories.',
       assumptions=REAL)
def K03(c):
    kr = c.cxx('kr', 'kalman_drv.cpp', ['-O2', '-fno-fast-math'])
    s = c.seed * 1000 + 400
    jobs = [lambda: psd(c, c.scale(4, 6))] + avr(c, 'cov', 100)
    jobs += [lambda i=i: real(c, kr, 'double', s + i, c.scale(24, 60), c.scale(100, 300), 0, 'cov') for i in range(c.scale(3, 10))]
    # histories of two measurements: the seeds of the repaired divergence always among them
    jobs += [lambda i=i: real(c, kr, 'double', i, c.scale(18, 60), c.scale(160, 1000), 3, 'cov') for i in [1, 3] + [s + 10 + k for k in range(c.scale(3, 8))]]
    jobs += [lambda: real(c, kr, 'double', s + 30, 6, c.scale(400, 3000), 1, 'cov')]
    jobs += [lambda: real(c, kr, 'float', s + 40, 12, c.scale(100, 400), 0, 'cov')]
    jobs += [lambda i=i: real(c, kr, 'double', s + 50 + i, c.scale(24, 96), c.scale(25, 80), 4, 'cov') for i in range(c.scale(1, 4))]
    jobs += [lambda i=i: real(c, kr, t, s + 60 + i, c.scale(60, 300), c.scale(2000, 20000), 5, 'cov') for t in ('double', 'float') for i in range(c.scale(1, 4))]
    jobs += [lambda t=t: real(c, kr, t, s + 90, 6, c.scale(140000, 1000000), 7, 'cov') for t in ('double', 'float')]
    c.parallel(jobs)
    c.sample({'driver': 'kalman_drv double %d 6 500 3' % (s + 10), 'events': 'upd with symmetry, semi-definiteness and shrinking judged'})

FORMATS = [('q7.8', 7, 8), ('q15.16', 15, 16), ('q4.11', 4, 11), ('q8.23', 8, 23)]

@check('K04', 'TLA+ trace validation of fixed-point estimators with a running quantization error bound',
       'Every update of kalman<fixed_point<...>> in four formats, on the host and on the ATmega328P simulator, is recomputed in TLA+ over numbers carrying an exact value and an error bound (one quantum per product/quotient); the observed state must lie within four times the bound. Steps whose intermediates may leave the range, or whose innovation is not distinguishable from zero, prescribe only the time.')
def K04(c):
    kq = c.cxx('kq', 'kalman_drv.cpp', ['-O1', '-DKV_FIXED'])
    s = c.seed * 1000 + 600
    def job(f, i, n, steps, style):
        t = c.path('%s-%d.nd' % (f[0], i))
        c.run([kq, f[0], i, n, steps, style], out=t, what='kalman<fixed_point> driver')
        c.validate('KalmanFixedTrace', t, env=dict(INTB=str(f[1]), FRAC=str(f[2])), traces=n)
    avrnum.simulator(c)
    jobs = []
    for rep, I, F in (('int16_t', 7, 8), ('int32_t', 15, 16), ('int16_t', 4, 11), ('int32_t', 8, 23)):
        for M, U in c.scale([(1, 1), (2, 2)], [(1, 1), (1, 2), (2, 1), (2, 2)]):
            jobs.append(avrnum.firmware(c, 'kx%d%d%d' % (F, M, U), ['-DKV_KALMAN', '-DKV_T=num::fixed_point<%s,%d>' % (rep, I), '-DKV_M=%d' % M, '-DKV_U=%d' % U],
                                        [c.seed * 10 + i for i in range(c.scale(2, 8))], 12, 25, 'KalmanFixedTrace', dict(INTB=str(I), FRAC=str(F)), traces=12))
    for k, f in enumerate(FORMATS):
        for i in range(c.scale(3, 12)):
            jobs.append(lambda f=f, i=i: job(f, s + i, c.scale(36, 90), c.scale(40, 100), 0))
        jobs.append(lambda f=f: job(f, s + 50, c.scale(12, 36), c.scale(150, 600), 1))
        for i in range(c.scale(1, 4)): jobs.append(lambda f=f, i=i: job(f, s + 70 + i, c.scale(12, 36), c.scale(120, 400), 6))
    c.parallel(jobs)
    c.sample({'driver': 'kalman_drv q7.8 %d 36 40 0' % s})
