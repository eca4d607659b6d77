from kv import *
from checks import check

TOL = {'d': '46', 'f': '18', 'i': '18'}
FLAGS = {'d': [], 'f': ['-DKV_T=float'], 'i': ['-DKV_T=float', '-DKV_INTS']}

def designs(c, what, jobs):
    """jobs: (number type, parts, count)"""
    kinds = sorted(set(j[0] for j in jobs))
    drv = dict(zip(kinds, c.parallel([lambda k=k: c.cxx('design-%s-%s' % (what, k), 'design_drv.cpp', ['-O1', '-DKV_ONLY_' + what] + FLAGS[k]) for k in kinds])))
    def job(k, s, n):
        def go():
            out = c.path('%s-%s-%d.nd' % (what, k, s))
            c.run([drv[k], what, s, n], out, timeout=300)
            return c.validate('DesignTrace', out, env=dict(TOL=TOL[k]), timeout=850)
        return go
    c.parallel([job(k, 100000 * c.seed + 100 * i + p, n) for i, (k, parts, n) in enumerate(jobs) for p in range(parts)])
    for j in jobs:
        c.sample({'design': what, 'parameters': {'d': 'double and mixed', 'f': 'float', 'i': 'float, integers and mixed'}[j[0]], 'designs': j[1] * j[2]})
    c.assume.append('Coefficients may differ from their exact values by 2^-46 (double) or 2^-18 (float) of their magnitude; gains are then judged exactly.')

@check('D01', 'TLA+ specification of the defining gains over exact rationals; designs computed by the real code for generated parameters, recorded and judged from their coefficients',
       'Seven kinds over frequencies from tiny to near Nyquist, Q from 1e-3 to 1e6, gains -60 to 60 dB with zero, double, float and mixed integer parameter types; gains at DC, Nyquist, cutoff, band edges; stability; boost against cut.')
def D01(c):
    designs(c, 'biquad', [('d', c.scale(4, 16), c.scale(1500, 8000)), ('i', c.scale(4, 16), c.scale(1500, 8000))])

@check('D02', 'TLA+ specification of Chebyshev attenuation requirements over exact rationals (order through the Chebyshev recurrence); designs of the real code recorded and judged from their coefficients',
       'Both types, low and high pass, orders 1 to 16, double, float and mixed integer types; order minimal, gain bounds at the edges, over a grid and at every ripple extreme, stability, 3 dB frequency, cascade construction.')
def D02(c):
    designs(c, 'cheby', [('d', c.scale(4, 16), c.scale(200, 2000)), ('i', c.scale(4, 16), c.scale(150, 2000))])

@check('D03', 'TLA+ specification of decibels and pre-warping over exact rationals with transcendental functions to 2^-300; values of the real code recorded and judged',
       'Ratios from 1e-12 to 1e12, decibels -200 to 200, frequencies up to near Nyquist, double, float, integer and mixed arguments.')
def D03(c):
    designs(c, 'helpers', [('d', c.scale(3, 8), c.scale(1500, 20000)), ('i', c.scale(3, 8), c.scale(1500, 20000))])

@check('D04', 'TLA+ specification of one-pole designs over exact rationals; designs of the real code recorded and judged from their coefficients',
       'Low and high pass, frequencies from tiny to near Nyquist, double, float, integer and mixed arguments; pole, gain at DC or Nyquist, stability, monotone gain.')
def D04(c):
    designs(c, 'onepole', [('d', c.scale(3, 8), c.scale(2000, 20000)), ('i', c.scale(3, 8), c.scale(2000, 20000))])

@check('L01', 'TLA+ difference-equation specification; interleaved histories of the real low- and high-pass objects recorded and validated against the coefficients of the corresponding design',
       'Several filter objects stepped in random interleavings over noise, steps, bursts and silence for random parameters, double and float; each output within rounding of the difference equation of the design from a cleared state.')
def L01(c):
    kinds = ['d', 'f']
    drv = dict(zip(kinds, c.parallel([lambda k=k: c.cxx('lpf-' + k, 'lpf_drv.cpp', ['-O1'] + FLAGS[k]) for k in kinds])))
    def job(k, s, n):
        def go():
            out = c.path('lpf-%s-%d.nd' % (k, s))
            c.run([drv[k], s, n], out)
            return c.validate('FilterRealTrace', out, env=dict(TOL={'d': '48', 'f': '19'}[k], ETA={'d': '-1000', 'f': '-120'}[k]), timeout=850)
        return go
    c.parallel([job(k, 100000 * c.seed + p, c.scale(150, 1500)) for k in kinds for p in range(c.scale(3, 8))])
    c.sample({'filter objects': 2 * c.scale(3, 8) * c.scale(150, 1500) * 3})
