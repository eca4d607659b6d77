"""Uses of the library given to the compiler, its verdicts judged by ContractTrace."""
from kv import *
from checks import check
import random

HOST = ['g++', '-std=c++17']
CHIP = ['avr-g++', '-std=c++17', '-fno-exceptions', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L']
SETTERS = {   # interface: (settings it has)
    'mem::eeprom': ['address', 'data'], 'mem::eeprom::program': ['mode'], 'mem::eeprom::enable': ['read', 'write', 'master_write'], 'mem::eeprom::interrupt': ['on_ready'],
    'tc0::input': ['clock'], 'tc0::output::a': ['mode'], 'tc0::output::b': ['mode'], 'tc0::output': ['waveform'], 'tc0::control::compare::force': ['a', 'b'],
    'tc0::value': ['timer'], 'tc0::value::compare': ['a', 'b'], 'tc0::enable::interrupt::on': ['match_a', 'match_b', 'overflow'],
    'tc1::input': ['clock'], 'tc1::input::capture': ['edge'], 'tc1::output::a': ['mode'], 'tc1::output::b': ['mode'], 'tc1::output': ['waveform'], 'tc1::control::compare::force': ['a', 'b'],
    'tc1::value': ['timer'], 'tc1::value::compare': ['a', 'b'], 'tc1::enable::interrupt::on': ['capture', 'match_a', 'match_b', 'overflow'],
    'tcp': ['synchronization'], 'tcp::reset::prescaler': ['tc2', 'tc01'],
    'twi::protocol': ['data', 'address'], 'twi::control': ['rate'], 'twi::control::prescale': ['factor'], 'twi::enable': ['interface', 'interrupt', 'general_call'],
    'ac::input::select': ['bandgap_ref'], 'ac::output::interrupt': ['on'], 'ac::enable': ['interrupt'], 'ac::enable::input': ['capture'], 'ac::disable::analog': ['comparator'],
    'adc::conversion': ['adjustment'], 'adc::input': ['reference', 'channel'], 'adc::enable': ['adc', 'interrupt', 'auto_trigger', 'comparator'], 'adc::trigger': ['on'], 'adc::prescale': ['factor'] }
READONLY = ['twi::reg::twsr::tws', 'ac::reg::acsr::aco', 'adc::reg::adc::whole', 'adc::reg::adc::adchl', 'adc::reg::adc::adcl', 'adc::reg::adc::adch']
FLAGS = ['tc0::reg::tifr0::' + f for f in ('ocf0b', 'ocf0a', 'tov0')] + ['tc1::reg::tifr1::' + f for f in ('icf1', 'ocf1b', 'ocf1a', 'tov1')] + ['ac::reg::acsr::aci', 'adc::reg::adcsra::adif']

def uses(c):
    """(event, compiler, prelude, code) for every use to judge"""
    r = random.Random(c.seed)
    some = lambda xs, k: list(xs) if c.tier == 'thorough' else r.sample(list(xs), min(k, len(xs)))
    out = []
    add = lambda ev, cc, pre, code, **f: out.append((dict(ev=ev, **f), cc, pre, code))
    # matrices
    shapes = [(a, b) for a in range(1, c.scale(4, 5)) for b in range(1, c.scale(4, 5))]
    for T in c.scale(['double'], ['double', 'int']):
        for a in shapes:
            for b in shapes:
                for op in '+-*':
                    add('matrix', HOST, '#include "num/matrix.hpp"', 'num::matrix<%s,%d,%d> a(0); num::matrix<%s,%d,%d> b(0); (void)( a %s b );' % (T, *a, T, *b, op), op=op, a=a, b=b)
    # estimators
    pre = '#include "dsp/kalman.hpp"\n#include <utility>\nusing namespace num;'
    val = lambda t: 'std::declval<%s const &>()' % t
    for m in (1, 2):
        for u in (1, 2, 3):
            head = 'using E = kalman<double,2,%d,%d>; ' % (m, u)
            right = dict(A=(2, 2), B=(2, u), H=(m, 2), Q=(2, 2), R=(m, m), P=(2, 2), x=(2, 1), u=(u, 1), z=(m, 1))
            sh9 = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
            for arg in right:
                for s in some(sh9, 4) + [right[arg], right[arg][::-1]]:
                    ty = lambda n: 'matrix<double,%d,%d>' % (s if n == arg else right[n])
                    if arg in 'uz': code = 'std::declval<E &>().update( %s, %s );' % (val(ty('u')), val(ty('z')))
                    else: code = 'E( 1.0, %s );' % ', '.join(val(ty(n)) for n in 'ABHQRPx')
                    add('model', HOST, pre, head + '(void)sizeof( (%s, 0) );' % code[:-1], m=m, u=u, arg=arg, shape=s)
    # fixed point formats
    fm = {'num::fixed_point<int,8>': (32, 8, 23), 'num::fixed_point<int,4>': (32, 4, 27), 'num::fixed_point<signed char,4>': (8, 4, 3), 'num::fixed_point<short,8>': (16, 8, 7), 'num::fixed_point<int,8,10>': (32, 8, 10)}
    for f in fm:
        for g in fm:
            for code in ['(void)( a %s b );' % op for op in ('+', '-', '*', '/', '<', '==', '!=', '<=', '>', '>=')] + ['a = b;', 'a += b;', 'a -= b;', 'a *= b;', 'a /= b;', '%s x( b );' % f]:
                if c.tier == 'thorough' or f == g or r.random() < 0.4:
                    add('formats', HOST, '#include "num/fixed-point.hpp"', '%s a( 1 ); %s b( 1 ); %s' % (f, g, code), f=fm[f], g=fm[g])
    # constants
    dsp = '#include "dsp/biquad.hpp"\n#include "dsp/biquad-cascade.hpp"\nusing Bq = dsp::BiQuadT<double>; using Cas = dsp::BiQuadCascadeT<double,3>;'
    one = '#include "dsp/onepole.hpp"\nusing Op = dsp::OnePoleT<double>;'
    fil = '#include "dsp/filter.hpp"'
    mat, fix = '#include "num/matrix.hpp"\nusing namespace num;', '#include "num/fixed-point.hpp"\nusing F = num::fixed_point<int,8>;'
    for pre, t, mods, obs in [
        (mat, 'matrix<double,2,3>', ['o(0)=1', 'o(1,2)=1', 'o=o', 'o[0]=1', 'o.at(0)=1', 'o.at(1,2)=1', '*o.begin()=1'], ['o(0)', 'o(1,2)', 'o[0]', 'o.at(1,2)', 'o.size()', 'o.rows()', 'o.columns()', 'o+o', 'o*2.0', '2.0*o', 'o-o', '*o.begin()']),
        (mat, 'rowvec<double,3>', ['o(0)=1', 'o=o'], ['o(0)', 'transposed(o)', 'o*transposed(o)']),
        (mat, 'matrix<double,2,2>', ['o(0)=1'], ['transposed(o)', 'inverted(o)', 'o*o']),
        ('#include "dsp/kalman.hpp"\nusing namespace num;', 'kalman<double,2,1,1>', ['o.update({1},{1})'], ['o.system_state()', 'o.kalman_gain()', 'o.estimation_error_covariance()', 'o.time()']),
        (fix, 'F', ['o+=o', 'o-=o', 'o*=o', 'o/=o', 'o=o'], ['o+o', '-o', 'o*o', 'o/o', 'o<o', 'o==o', 'o.as_double()', 'o.underlying_value()']),
        (dsp, 'Bq', ['o.step(1)', 'o.step_df2(1)', 'o.step_df2_transposed(1)', 'o.reset()', 'o.swap(*(Bq*)1)', 'o=o'], ['o.coeff_a()', 'o.coeff_b()', 'o.state()', 'o.poles()', 'o.zeros()', 'o.is_stable()', 'Bq(o)', 'response(o,0.1)']),
        (one, 'Op', ['o.step(1)', 'o.reset()', 'o.swap(*(Op*)1)', 'o=o'], ['o.coeff_a()', 'o.coeff_b()', 'o.state()', 'o.is_stable()', 'Op(o)']),
        (dsp, 'Cas', ['o.append(*(Bq*)1)', 'o.remove(0)', 'o.insert(0,*(Bq*)1)', 'o.replace(0,*(Bq*)1)', 'o.clear()', 'step(o,1)', 'step_df2(o,1)', 'step_df2_transposed(o,1)', 'reset(o)', 'o.begin()->reset()', 'o.begin()->step(1)', 'o=o'],
                     ['o.size()', 'o.reserved()', 'o.coeff_a(0)', 'o.coeff_b(0)', 'o.state(0)', 'o.begin()', 'o.end()', 'is_stable(o)', 'response(o,0.1)', 'Cas(o)']),
        (fil, 'dsp::Lpf<double>', ['o(1)'], []), (fil, 'dsp::Hpf<double>', ['o(1)'], [])]:
        for kind, xs in (('modify', mods), ('observe', obs)):
            for x in xs:
                for const in (True, False):
                    add('constant', HOST, pre + '\nvoid use( %s %s & o ) { (void)( %s ); }' % (t, 'const' if const else '', x), '', type=t, expr=x, kind=kind, const=const)
    for cap in (1, 2, 3):
        for n in range(0, 5):
            add('capacity', HOST, dsp, 'Bq b( {1,2,3}, {4,5} ); dsp::BiQuadCascadeT<double,%d> x{ %s };' % (cap, ', '.join(['b'] * n)), cap=cap, n=n)
    # registers
    reg = '#include "mcu/register.hpp"\nusing namespace mcu;'
    for b in (8, 16):
        grid = [(h, w) for h in range(b + 2) for w in range(b + 2)]
        for h, w in some(grid, 60) + [(b, b), (b, 0), (b - 1, b - 1), (b - 1, 0), (0, 0), (0, 1), (b - 1, b)]:
            add('field', CHIP, reg, 'bitfield%d_t<rw_t,0x40,%d,%d> f; (void)f;' % (b, h, w), bits=b, hi=h, lo=w)
    name = dict(r='r_t', w='w_t', rw='rw_t', rc_w1='rc_w1_t', rc_w0='rc_w0_t', rc_r='rc_r_t', rs='rs_t', rt_w='rt_w')
    fields = [('bitfield8_t<%s,0x40,3>', 'bit'), ('bitfield8_t<%s,0x40,7>', 'bit'), ('bitfield16_t<%s,0x40,11>', 'bit'), ('bitfield8_t<%s,0x40,5,2>', 'range'), ('register8_t<%s,0x40>', 'all'), ('register16_t<%s,0x40>', 'all'), ('bitfield16_t<%s,0x40,11,3>', 'range')]
    for p, t in name.items():
        for f, w in fields:
            for op in ('read()', 'write( 1 )', 'write_lazy( 1 )', 'set()', 'clear()', 'toggle()', 'trigger()'):
                add('access', CHIP, reg, '%s::%s;' % (f % t, op), policy=p, width=w, op=op.split('(')[0])
        for pr in ('can_read', 'can_write', 'can_only_set_or_clear', 'is_for_bits_only', 'is_clear'):
            m = p
            add('predicate', CHIP, reg, 'static_assert( %s( Mutability::%s ), "" );' % (pr, m), name=pr, policy=p)
    kinds = [('bitfield8_t<%s,%s,3,1>', 8), ('bitfield8_t<%s,%s,7>', 8), ('register8_t<%s,%s>', 8), ('bitfield16_t<%s,%s,9,6>', 16), ('bitfield16_t<%s,%s,15>', 16)]
    one_ = [(f % (p, a), [b, a, p]) for f, b in kinds for p in ('rw_t', 'w_t') for a in ('0x40', '0x41')]
    pairs = [[x, y] for x in one_ for y in one_]
    for parts in some(pairs, 70) + [[x, y] for x in one_ for y in one_ if x[1] == y[1]] + [[r.choice(one_) for _ in range(3)] for _ in range(20)] + [[x, x, x] for x in one_[::3]] + [[x, x, y] for x in one_[:4] for y in one_[:4]]:
        add('join', CHIP, reg, ', '.join('%s::write_lazy( 1 )' % x[0] for x in parts) + ';', parts=[x[1] for x in parts])
    chip = '#include "mcu/atmega328.hpp"\nusing namespace mcu::atmega328;'
    for kind, names in (('status', READONLY), ('flag', FLAGS)):
        for n in names:
            if kind == 'flag' and not n.startswith('tc'): continue
            for op in ('read()', 'write( 1 )', 'write_lazy( 1 )', 'set()', 'clear()', 'toggle()'):
                add('named', CHIP, chip, '%s::%s;' % (n, op), kind=kind, name=n, op=op.split('(')[0])
    every = [(ns, t) for ns in SETTERS for t in SETTERS[ns]]
    twin = lambda ns: ns.replace('tc0', 'TC').replace('tc1', 'tc0').replace('TC', 'tc1')
    for ns in SETTERS:
        other = [(o, t) for o, t in every if o != ns]
        twins = [(twin(ns), t) for t in SETTERS.get(twin(ns), [])] if twin(ns) != ns else []
        for o, t in [(ns, t) for t in SETTERS[ns]] + twins + some(other, 3):
            add('setting', CHIP, chip, '%s::set( %s::%s{} );' % (ns, o, t), setter=ns, owner=o, type=t)
        add('setting', CHIP, chip, '%s::set( 1 );' % ns, setter=ns, owner='a number', type='int')
    return out

def verdicts(c, us):
    """ask the compiler; anything but a plain yes or an error message is tool trouble"""
    inc = ['-w', '-fsyntax-only', '-I', os.path.join(REPO, 'include'), '-xc++', '-']
    def ask(u):
        ev, cc, pre, code = u
        src = pre + '\nvoid probe()\n{\n' + code + '\n}\n'
        for attempt in (0, 1, 2):
            p = subprocess.run(cc + inc, input=src, text=True, errors='replace', capture_output=True, timeout=200)
            if p.returncode == 0: ok = True; break
            if re.search(r'\berror:', p.stderr) and 'internal compiler error' not in p.stderr and 'Killed' not in p.stderr: ok = False; break
        else:
            raise ToolError('compiler failed: ' + p.stderr[-300:])
        e = dict(ev)
        if ev['ev'] == 'predicate': e['value'] = ok
        else: e['ok'] = ok
        return e, src
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(ask, us))

@check('T01', 'TLA+ specification of which uses have a meaning (conformance of shapes, formats, access policies, joins, constants, interfaces); every generated use is given to the compiler and its verdicts validated as a trace',
       'Sums and products of all matrix shapes up to 3x3 (4x4), estimators with every argument of every shape up to 3x3, pairs of fixed-point formats, modifiers and observers of constants, all policies with all accesses for single bits, ranges and whole registers, field positions in 8 and 16 bits, pairs and triples of joined deferred writes, named status registers and flags, settings given to every other interface (sampled in the quick tier). Compilers: g++ and avr-g++.')
def T01(c):
    us = uses(c)
    out = c.path('contract.nd')
    got = verdicts(c, us)
    with open(out, 'w') as f:
        for e, src in got: f.write(json.dumps(e) + '\n')
    with open(c.path('sources.txt'), 'w') as f:
        for i, (e, src) in enumerate(got): f.write('// event %d: %s\n%s\n' % (i + 1, json.dumps(e), src))
    c.count('uses_compiled', len(got)); c.count('uses_accepted', sum(e.get('ok', e.get('value')) for e, s in got))
    c.validate('ContractTrace', out, timeout=600)
    c.sample({'uses': len(got)})
