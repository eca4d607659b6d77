from kv import *
from checks import check
import re

def scripts(c, kind, cap, length, simulate=0):
    """behaviours of FilterGen: all of the given length, or a random sample of long ones"""
    env = dict(KIND=kind, CAP=str(cap), LEN=str(length))
    cfg = 'SPECIFICATION Spec\nINVARIANT Shown\nCHECK_DEADLOCK FALSE\n'
    extra = ('-simulate', 'num=%d' % simulate, '-depth', str(length + 1), '-seed', str(c.seed)) if simulate else ()
    for attempt in (0, 1):
        r = c.tlc('FilterGen', cfg, env=env, extra=extra, name='gen-%s-%d-%d' % (kind, cap, length))
        if r.done: break
    else:
        raise ToolError('behaviour generation failed: ' + tail(r.out + r.err))
    beh = [' '.join(re.findall(r'"(\w+)"', b)) for b in re.findall(r'<<\s*"BEH",\s*<<(.*?)>>\s*>>', r.out, re.S)]
    if not beh: raise ToolError('no behaviours generated: ' + tail(r.out))
    beh = sorted(set(beh))
    f = c.path('%s-%d-%d-%d.txt' % (kind, cap, length, simulate))
    open(f, 'w').write('\n'.join(beh) + '\n')
    c.count('states', r.states); c.count('transitions', r.gen)
    c.sample({'behaviours_generated_by_TLC': len(beh), 'kind': kind, 'capacity': cap, 'length': length, 'random': bool(simulate), 'example': beh[len(beh) // 2]})
    c.count('traces_generated_from_model', len(beh))
    return f

def nothing(c):
    """no script: the driver edits a cascade of many sections"""
    f = c.path('none.txt'); open(f, 'w').close()
    return f

KINDS = {'field': (['-DKV_FIELD'], '32749'), 'double': (['-DKV_CASCADE'], '0'), 'float': (['-DKV_T=float', '-DKV_S=float'], '0'),
         'long': (['-DKV_T=long', '-DKV_S=long'], '0'), 'mixed': (['-DKV_T=double', '-DKV_S=float'], '0'), 'int/short': (['-DKV_T=int', '-DKV_S=short'], '0')}

def replay(c, what, kinds, jobs, extra=(), flags=()):
    """jobs: (script file function, capacity, parts, every)"""
    onepole = ['-DKV_ONEPOLE'] if what == 'onepole' else []
    drv = dict(zip(kinds, c.parallel([lambda k=k: c.cxx('f-%s-%s' % (what, k.replace('/', '-')), 'filter_drv.cpp',
          ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] * (k == 'double') + ['-O1'] + KINDS[k][0] + onepole, optional=k == 'field') for k in kinds])))
    if 'field' in drv and drv['field'] is None:
        c.assume.append('the templates no longer compile for the exact field type: other element types only')
    files = c.parallel([lambda f=f: f() for f, cap, parts, every in jobs])
    def job(k, sf, cap, part, parts):
        t = c.path('%s-%s-%d-%d-%s.nd' % (what, k.replace('/', '-'), part, cap, os.path.basename(sf)))
        c.run([drv[k], what, c.seed * 1000 + part, sf, part, parts, cap], out=t, what='%s<%s> driver' % (what, k), timeout=300)
        c.validate('FilterTrace', t, env=dict(PRIME=KINDS[k][1]))
        os.remove(t)
    todo = list(extra)
    for (f, cap, parts, every), sf in zip(jobs, files):
        for ki, k in enumerate(kinds):
            if drv[k] is None: continue
            # the field sees every behaviour, other types every so many
            for part in range(parts):
                if k == 'field' or part % every == (ki % every):
                    todo.append(lambda k=k, sf=sf, cap=cap, part=part, parts=parts: job(k, sf, cap, part, parts))
    c.parallel(todo)

def real(c, jobs):
    """jobs: (what, type, seeds, n)"""
    T = {'double': ([], '45', '-1000'), 'float': (['-DKV_T=float'], '17', '-124'), 'mixed': (['-DKV_S=float', '-DKV_MIXED'], '45', '-1000')}
    kinds = sorted(set(k for _, k, _, _ in jobs))
    drv = dict(zip(kinds, c.parallel([lambda k=k: c.cxx('fr-' + k, 'filter_real_drv.cpp', ['-O2'] + T[k][0]) for k in kinds])))
    def job(w, k, s, n):
        t = c.path('r-%s-%s-%d.nd' % (w, k, s))
        c.run([drv[k], w, s, n], out=t, what='%s %s driver' % (w, k), timeout=300)
        c.validate('FilterRealTrace', t, env=dict(TOL=T[k][1], ETA=T[k][2]))
        os.remove(t)
    for w, k, s, n in jobs: c.sample({'driver': 'filter_real_drv %s (%s) %d runs' % (w, k, n * s)})
    return [lambda w=w, k=k, s=s, n=n: job(w, k, c.seed * 1000 + s, n) for w, k, ss, n in jobs for s in range(ss)]

def mc(c, p):
    return lambda: c.model_check('FilterMC', 'SPECIFICATION MCSpec\nCONSTANT P_ = %d\nINVARIANT Agree Silent\nPROPERTY Coeffs\nCHECK_DEADLOCK FALSE\n' % p,
           'all biquads, all input histories over the field of %d elements: both realizations refine the difference equation' % p, workers=c.scale(2, 4))

@check('B01', 'TLA+ difference-equation specification; TLC proof over small fields that both realizations refine it; trace validation of the real sections, exact over a prime field and integers, bounded rounding in floating point',
       'All generated histories of two sections (step in all realizations, reset, copy, swap) replayed over the field of 32749 elements, int, long, float, double and mixed types with exact comparison by TLC; long noisy, silent, extreme histories in double and float, up to 140000 samples, compared within rounding at the current signal level.')
def B01(c):
    jobs = [(lambda: scripts(c, 'section', 0, c.scale(3, 5)), 0, c.scale(2, 40), c.scale(1, 4)),
            (lambda: scripts(c, 'section', 0, 40, c.scale(150, 1500)), 0, c.scale(2, 8), 1)]
    replay(c, 'section', ['field', 'double', 'float', 'long', 'mixed', 'int/short'], jobs,
           real(c, [('run', 'double', c.scale(4, 16), c.scale(300, 1500)), ('run', 'float', c.scale(2, 8), c.scale(300, 1500)), ('run', 'mixed', c.scale(1, 4), c.scale(300, 1500))]) + [mc(c, c.scale(2, 3))])

@check('B02', 'TLA+ state machine of sections (step, reset, copy, assign, swap); behaviours generated exhaustively by TLC, replayed into the real class, the recorded trace validated',
       'Every behaviour of the generator specification up to the stated length on two sections (and long random ones) is replayed; outputs, coefficients and observable state compared after every operation.')
def B02(c):
    jobs = [(lambda: scripts(c, 'section', 0, c.scale(4, 5)), 0, c.scale(16, 48), c.scale(8, 6)),
            (lambda: scripts(c, 'section', 0, 60, c.scale(100, 2000)), 0, c.scale(1, 8), 1)]
    replay(c, 'section', ['field', 'double', 'float', 'long', 'mixed'], jobs)

@check('B03', 'TLA+ specification of poles, zeros, stability (Jury criterion) and zero-pole-gain form over exact rationals; trace validation of the real functions',
       'Reported roots must satisfy the coefficient relations within rounding; stability is compared with the exact Jury criterion outside a rounding band, and exactly on the boundary for few-bit roots; zero-pole-gain construction against the expanded polynomials.')
def B03(c):
    c.parallel(real(c, [('pz', 'double', c.scale(4, 16), c.scale(4000, 30000)), ('pz', 'float', c.scale(2, 8), c.scale(4000, 30000))]))

@check('B04', 'TLA+ specification of the transfer function at exp(2 pi i f) over exact rationals with verified series for sine and cosine; trace validation of the real response functions',
       'Responses of one-pole sections, biquads and cascades of 0 to 4 sections (with leftovers beyond the active ones) multiplied out with the denominator and compared with a rigorous rounding bound.')
def B04(c):
    c.parallel(real(c, [('resp', 'double', c.scale(6, 24), c.scale(500, 2500)), ('resp', 'float', c.scale(2, 8), c.scale(500, 2500))]))

@check('C01', 'TLA+ state machine of the bounded cascade; behaviours generated exhaustively by TLC, replayed into the real class (with address sanitizer), the recorded trace validated',
       'Every edit history up to the stated length for capacities 1 to 3 and long random ones for capacities 4 and 6, over a prime field and double; size, per-index observers and iteration compared after every operation, sections carry a filtering past, also sections of the cascade itself are appended, inserted and put, copies edited independently; cascades of capacity 20 and 300 filled and edited.')
def C01(c):
    jobs = [(lambda: scripts(c, 'cascade', 3, c.scale(5, 6)), 3, c.scale(4, 32), 2), (lambda: scripts(c, 'cascade', 2, c.scale(4, 6)), 2, c.scale(2, 16), 2),
            (lambda: scripts(c, 'cascade', 1, c.scale(4, 6)), 1, c.scale(2, 8), 2),
            (lambda: scripts(c, 'cascade', 4, 60, c.scale(60, 1000)), 4, c.scale(2, 8), 2), (lambda: scripts(c, 'cascade', 6, 80, c.scale(40, 600)), 6, c.scale(2, 8), 2),
            (lambda: nothing(c), 300, c.scale(2, 6), 1), (lambda: nothing(c), 20, c.scale(2, 8), 1)]
    replay(c, 'cascade', ['field', 'double'], jobs)

@check('C02', 'TLA+ composition of sections; TLC-generated histories of edits, steps in the three realizations and resets replayed into the real cascade, the recorded trace validated; stability against the exact Jury criterion',
       'Cascade outputs must be those of the composed difference equations for the whole history of every section, up to 140000 steps; long random histories for capacities 2 to 6; stability of cascades with none, one or any unstable sections.')
def C02(c):
    jobs = [(lambda: scripts(c, 'cascade', 2, c.scale(5, 6)), 2, c.scale(2, 16), 2)] + [
            (lambda k=k: scripts(c, 'cascade', k, 50, c.scale(100, 1500)), k, c.scale(2, 8), 2) for k in (2, 3, 4, 6)]
    replay(c, 'cascade', ['field', 'double'], jobs, real(c, [('cstab', 'double', c.scale(2, 8), c.scale(3000, 20000)), ('cstab', 'float', c.scale(1, 4), c.scale(3000, 20000))]))

@check('C03', 'TLA+ machine of the requests a bounded cascade (and a design) can take; in every state of random edit histories each request inside and outside the bounds is tried in a process of its own and the outcome validated',
       'Append, insert, remove, replace, clear and the per-index observers with indices from far below to far above the range in all sizes of cascades of capacity 1 to 9, Chebyshev designs of any kind with frequencies at, above and just below half the sample rate, cascades made from more sections than they can hold; with assertions enabled, memory around the cascade watched.')
def C03(c):
    d = c.cxx('guard', 'guard_drv.cpp', ['-O1'])
    def job(s):
        def go():
            out = c.path('guard-%d.nd' % s)
            c.run([d, c.seed * 1000 + s, c.scale(20, 200)], out, timeout=600)
            c.validate('GuardTrace', out, cfg='SPECIFICATION TraceSpec\nINVARIANT Bounded\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n', timeout=600)
        return go
    c.parallel([job(s) for s in range(c.scale(4, 12))])
    c.sample({'driver': 'guard_drv', 'histories': 'capacities 1, 2, 3, 4, 9'})

@check('O01', 'TLA+ difference-equation specification and section state machine; TLC-generated histories replayed into the real one-pole class, the recorded trace validated; pole, stability and gain compared exactly',
       'Every operation history up to the stated length on two one-pole sections over a prime field and doubles; long floating-point histories (up to 140000 samples) within rounding; pole, zero, stability (the boundary included) and zero-pole-gain construction.')
def O01(c):
    jobs = [(lambda: scripts(c, 'section', 0, c.scale(4, 5)), 0, c.scale(8, 40), c.scale(4, 5)),
            (lambda: scripts(c, 'section', 0, 60, c.scale(100, 2000)), 0, c.scale(1, 8), 1)]
    replay(c, 'onepole', ['field', 'double', 'float', 'long'], jobs,
           real(c, [('run1', 'double', c.scale(2, 8), c.scale(300, 1500)), ('run1', 'float', c.scale(1, 4), c.scale(300, 1500)),
                    ('pz1', 'double', c.scale(1, 4), c.scale(4000, 30000)), ('pz1', 'float', c.scale(1, 4), c.scale(4000, 30000))]))
