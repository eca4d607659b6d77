from kv import *
from checks import check
import avrnum

# driver name, flags, spec module, environment
KINDS = [('field', ['-DKV_FIELD'], 'MatrixTrace', dict(PRIME='32749')),
         ('int', ['-DKV_T=int'], 'MatrixTrace', dict(PRIME='0')),
         ('long', ['-DKV_T=long', '-O2'], 'MatrixTrace', dict(PRIME='0')),
         ('double', ['-DKV_T=double', '-O2'], 'MatrixTrace', dict(PRIME='0')),
         ('bits', ['-DKV_T=double', '-DKV_BITS', '-O2'], 'MatrixTrace', dict(PRIME='-1')),
         ('fbits', ['-DKV_T=float', '-DKV_BITS', '-O1'], 'MatrixTrace', dict(PRIME='-1')),
         ('real', ['-DKV_T=double', '-DKV_REAL', '-O2'], 'MatrixRealTrace', dict(TOL='46')),
         ('float', ['-DKV_T=float', '-DKV_REAL', '-O2'], 'MatrixRealTrace', dict(TOL='18'))]

def go(c, what, kinds, size, n, jobs=()):
    ks = [k for k in KINDS if k[0] in kinds]
    drv = c.parallel([lambda k=k: c.cxx('m-' + k[0], 'matrix_drv.cpp', ['-O1'] + k[1], optional=k[0] == 'field') for k in ks])
    def job(k, d, i):
        t = c.path('%s-%s-%d.nd' % (what, k[0], i))
        c.run([d, what, c.seed * 100 + i, size], out=t, what='matrix<%s> driver' % k[0])
        c.validate(k[2], t, env=k[3])
    if drv[0] is None:
        c.assume.append('the templates no longer compile for the exact field type: other element types only')
    avrnum.simulator(c)
    code = {'alg': 0, 'store': 1, 'inv': 2}[what]
    avr = [avrnum.firmware(c, 'int', ['-DKV_MATRIX', '-DKV_T=int16_t'], [c.seed * 100 + i for i in range(c.scale(2, 8))], c.scale(30, 120), code, 'MatrixTrace', dict(PRIME='0'))]
    if what != 'store':
        avr.append(avrnum.firmware(c, 'float', ['-DKV_MATRIX', '-DKV_T=float', '-DKV_REAL'], [c.seed * 100 + i for i in range(c.scale(2, 8))], c.scale(20, 80), code, 'MatrixRealTrace', dict(TOL='18')))
    c.parallel(list(jobs) + avr + [lambda k=k, d=d, i=i: job(k, d, i) for k, d in zip(ks, drv) if d for i in range(n)])
    c.sample({'driver': 'matrix_drv %s %d %d' % (what, c.seed * 100, size), 'types': kinds})

def mc(c, n, m):
    return lambda: c.model_check('MatrixMC', 'SPECIFICATION MCSpec\nCONSTANT Rws = %d\nCONSTANT Cls = %d\nINVARIANT IsShape FlatRoundTrip Laws\nPROPERTY OneTarget\nCHECK_DEADLOCK FALSE\n' % (n, m),
                  'programs over two %dx%d matrices modulo 3: store laws and algebra laws' % (n, m), workers=3)
SHAPES = [(1, 1), (1, 3), (2, 1), (2, 2)]

@check('M01', 'TLA+ linear algebra over a finite field; trace validation of all conforming shapes; TLC model checking of the algebra laws',
       'Sums, differences, scalar operations and products for all shapes up to 4x4 (and some larger, row and column vectors up to 8, products beyond 256 elements) on random elements of a prime field, int, long and double, compared exactly (double with fractions: within rounding) by TLC; 16-bit int and float also on the ATmega328P simulator; operands logged after the call.')
def M01(c): go(c, 'alg', ['field', 'int', 'long', 'double', 'real', 'float'], c.scale(40, 300), c.scale(1, 4), [mc(c, *s) for s in SHAPES])

@check('M02', 'TLA+ state machine of the matrix store; trace validation of random programs through every access path; TLC model checking',
       'Random programs (fill, lists, copies, moves, writes by every access path) on matrices of eleven shapes and some of more than 256 elements, elements of any bit pattern (NaN, infinities, denormals) included; after each operation all elements are read back by all access paths and TLC requires exactly the prescribed element to have changed; guard words around the objects.')
def M02(c): go(c, 'store', ['field', 'int', 'double', 'bits', 'fbits'], c.scale(250, 1500), c.scale(2, 6), [mc(c, *s) for s in SHAPES])

@check('M03', 'TLA+ linear algebra over a finite field and exact rationals; trace validation of transposition and inversion',
       'Transposition of vectors and 2x2 matrices and inversion of scalars and 2x2 matrices: exact over a prime field, within the condition-scaled rounding bound for double and float. Known finding: the 2x2 inverse comes transposed.')
def M03(c): go(c, 'inv', ['field', 'int', 'real', 'float'], c.scale(300, 4000), c.scale(2, 6), [mc(c, *s) for s in SHAPES])
