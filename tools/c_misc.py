from kv import *
from checks import check
import avrnum

def recorded(c, module, drv, args, seeds, flags=('-O1',), more=()):
    d = c.cxx(drv[:-4], drv, list(flags))
    def job(s):
        def go():
            out = c.path('%s-%d.nd' % (drv[:-4], s))
            c.run([d, c.seed * 1000 + s, *args], out, timeout=300)
            c.validate(module, out, timeout=850)
            os.remove(out)
        return go
    c.parallel([job(s) for s in range(seeds)] + list(more))
    c.sample({'driver': '%s %s, %d seeds' % (drv, args, seeds)})

SAN = ('-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined')

@check('R01', 'TLA+ machine of a cursor on an arithmetic progression; every iteration of the real ranges is recorded and validated step by step as a run of the machine',
       'All small integer ranges with steps -3 to 3, random integer, unsigned, short, char, float, double and mixed ranges including empty, open-ended and fractional ones; indices of arrays, containers and lists; five ways of iterating, each range iterated twice.')
def R01(c):
    recorded(c, 'RangeTrace', 'range_drv.cpp', [c.scale(1500, 20000)], c.scale(4, 12), SAN)

@check('S01', 'TLA+ definition of the algorithms as functions on sequences; calls of the real code on all small and many random inputs recorded and judged',
       'All sub-ranges of sequences up to length 5 (7), all pairs of sequences over three values up to length 3, six predicates, vectors, lists, non-trivial elements (address sanitizer on); all texts over two letters up to length 5; numeric casts; the AVR stand-ins for the standard library (algorithms, numeric_limits, type traits, initializer_list, move, swap, complex) executed on the ATmega328P simulator.')
def S01(c):
    avrnum.simulator(c)
    avr = [avrnum.firmware(c, 'seq', ['-DKV_SEQ'], [c.seed * 10 + i for i in range(c.scale(2, 8))], c.scale(400, 2000), 0, 'SeqTrace', opt=o) for o in ('-Os', '-O2')]
    recorded(c, 'SeqTrace', 'seq_drv.cpp', [c.scale(2000, 30000), c.scale(5, 7)], c.scale(4, 12), SAN, avr)

@check('I01', 'TLA+ specification of the numbers and verdicts a text must show; output of the real stream operators for generated values recorded and judged',
       'Matrices of eight shapes and four entry types, fixed-point numbers of seven formats, coefficients, states, root pairs, one-pole and biquad sections, cascades of 0 to 4 sections, vectors, design information; values of magnitude 1e-12 to 1e12.')
def I01(c):
    recorded(c, 'TextTrace', 'text_drv.cpp', [c.scale(300, 4000)], c.scale(4, 12), ('-O1',))
