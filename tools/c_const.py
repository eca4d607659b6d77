"""What the library computes in constant expressions, judged by ConstTrace."""
from kv import *
from checks import check
import random, struct

CTRACE = 'SPECIFICATION ConstSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
FORMATS = [('int', 31, 16), ('int', 31, 0), ('int', 31, 30), ('int', 31, 8), ('short', 15, 7), ('short', 15, 0), ('short', 15, 14), ('signed char', 7, 3), ('signed char', 7, 6), ('signed char', 7, 0)]

def tables(r, count, size, formats):
    def pick(D, F):
        lo, hi, one = -2 ** D, 2 ** D - 1, 2 ** F
        k = r.randrange(6)
        if k == 0: v = r.choice((0, 1, -1, one, -one, one - 1, one + 1, -one - 1, lo, hi, lo + 1, hi // 2, lo // 2, 2, -2, 3 * one, -3 * one, one // 2, -(one // 2)))
        elif k == 1: v = r.randint(lo, hi) >> r.randrange(D)
        elif k == 2: v = r.choice((1, -1)) * 2 ** r.randrange(D) + r.randint(-1, 1)
        elif k == 3: v = r.randint(-40, 40)
        elif k == 4: v = r.randint(lo, hi) // one * one
        else: v = r.randint(lo, hi)
        return min(max(v, lo), hi)
    s, names = '', []
    for i, (R, D, F) in enumerate(formats):
        a, b, n, z = [], [], [], []
        for k in range(count):
            x, y = pick(D, F), pick(D, F)
            if r.random() < .3 and y:
                x = r.choice(((2 ** D - 1) // abs(y), abs(y) * r.randint(0, 9), (2 ** D - 1) * abs(y) >> F, r.randint(0, 2 ** F) * abs(y) >> F)) * r.choice((1, -1)) + r.randint(-1, 1)
                x = min(max(x, -2 ** D), 2 ** D - 1)
            a.append(x); b.append(y)
            v = pick(D, F) / 2 ** F
            n.append(r.choice((v, v + .5 / 2 ** F, v - .5 / 2 ** F, v * r.random(), float(int(v)), float(r.randint(-3, 3)))))
            z.append(r.choice((pick(D, F) >> F, r.randint(-9, 9))))
        X = 'X%d' % i; names.append(X)
        s += 'typedef num::fixed_point<%s, %d> %s;\ntemplate< typename X > struct Tab;\n' % (R, D - F, X) if i == 0 else 'typedef num::fixed_point<%s, %d> %s;\n' % (R, D - F, X)
        s += 'template<> struct Tab<%s> {\n' % X
        s += '  static constexpr ll a[] = { %s };\n' % ', '.join('%dLL' % x for x in a)
        s += '  static constexpr ll b[] = { %s };\n' % ', '.join('%dLL' % x for x in b)
        s += '  static constexpr double n[] = { %s };\n' % ', '.join(x.hex() for x in n)
        s += '  static constexpr int z[] = { %s };\n};\n' % ', '.join(map(str, z))
    s += 'constexpr int E[64] = { %s };\nconstexpr int E_POS[64] = { %s };\n' % (', '.join(str(r.randint(-12, 12)) for _ in range(64)), ', '.join(str(r.randrange(1000)) for _ in range(64)))
    return s + '#define COUNT %d\n#define SIZE %d\n#define FORMATS %s\n' % (count, size, ' '.join('format<%s>();' % x for x in names))

@check('N01', 'TLA+ specifications of fixed-point numbers, matrices and sequences; the values that compilers compute in constant expressions, and whether there is one, recorded and validated with TLC',
       'Fixed-point formats of 8, 16 and 32 bits (construction, conversion, arithmetic, compound assignment, comparison, mixed operands), matrices of seven shapes (algebra, writes through every access path, inversion), sequence algorithms and swap; g++ and clang++, C++17 and C++20.')
def N01(c):
    def go(k, cc, fm):
        d = c.path('c%d' % k); os.makedirs(d)
        r = random.Random('N01/%d/%d' % (c.seed, k))
        open(d + '/const_tables.hpp', 'w').write(tables(r, c.scale(60, 150), c.scale(5, 12), fm))
        cmd = cc + ['-w', '-O0', '-I', d, '-I', os.path.join(VERIF, 'harness'), '-I', os.path.join(REPO, 'include'), os.path.join(VERIF, 'harness', 'const_drv.cpp'), '-o', d + '/drv']
        for attempt in (0, 1, 2):
            rc, o, e = sh(cmd, timeout=600)
            if rc == 0: break
        log = d + '/compile.log'; open(log, 'w').write(' '.join(cmd) + '\n' + o + e)
        if rc != 0:
            if 'error:' not in e or 'Killed' in e or 'internal compiler error' in e: raise ToolError('compiler failed: ' + e[-300:])
            raise Violation('the uses of the library in constant expressions do not compile: ' + first_error(e), [log])
        t = c.path('c%d.nd' % k)
        c.run([d + '/drv'], t)
        c.validate('ConstTrace', t, cfg=CTRACE)
        c.sample({'compiler': ' '.join(cc), 'formats': fm})
        shutil.rmtree(d)
    ccs = [['g++', '-std=c++17'], ['clang++', '-std=c++17'], ['g++', '-std=c++2a'], ['clang++', '-std=c++20']]
    r = random.Random(c.seed)
    jobs = []
    for k in range(c.scale(4, 24)):
        fm = r.sample(FORMATS, 3)
        jobs.append(lambda k=k, cc=ccs[k % 4], fm=[FORMATS[k % 10]] + [f for f in fm if f != FORMATS[k % 10]]: go(k, cc, fm))
    c.parallel(jobs)
