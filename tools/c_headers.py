"""Programs made of the public headers in any order, their verdicts and results judged by HeaderTrace."""
from kv import *
from checks import check
import random

# what a header provides, in a form that shows what its names mean; %s is the tag of the unit
BQ = 'dsp::BiQuadT<double> q( {1,2,3}, {0.5,0.25} ); '
OP = 'dsp::OnePoleT<double> q( {0.5}, {-0.25} ); '
MAT = 'num::matrix<double,2,2> a = { 1, 2, 3, 4 }; '
KAL = 'num::kalman<double,2,1,1> k( 1, { 1, 1, 0, 1 }, { 0.5, 1 }, { 1, 0 }, { 0.01, 0.02, 0.02, 0.04 }, 4, { 1, 0, 0, 1 }, { 0, 0 } ); k.update( {1}, {3} ); k.update( {2}, {4} ); '
CAS = 'dsp::BiQuadCascadeT<double,3> c; c.append( q ); c.append( q ); '
CHEB = 'auto d = dsp::chebyshev1_lp_hp( dsp::FilterResponse::low_pass, 1000., 100., 160., 1., 30. ); '
PRINT = '{ std::ostringstream os; os << %s; text( os.str().c_str() ); }'
HOST = {
    'core/range.hpp': 'double s = 0; for ( auto i : core::range( 0, 10, 3 ) ) s = s * 16 + i; show( s ); for ( auto i : core::range( 3. ) ) { s += i; if ( i > 6 ) break; } show( s );',
    'core/shims.hpp': 'show( core::as<double>( 7 ) / 2 ); show( core::as<int>( 3.7 ) );',
    'core/text.hpp': 'text( core::line( 3 ).c_str() ); text( core::replaced( "ababab", "ba", "c" ).c_str() );',
    'core/traits.hpp': 'core::identity_t<int> i( 3.7 ); show( i );',
    'core/core.hpp': 'double s = 0; for ( auto i : core::range( 0, 4 ) ) s = s * 8 + i; show( s ); show( core::as<int>( 2.5 ) ); text( core::line( 2 ).c_str() );',
    'core/vector-io.hpp': 'std::vector<int> v = { 1, 2, 3 }; ' + PRINT % 'v',
    'core/core-io.hpp': 'std::vector<double> v = { 1.5, 2 }; ' + PRINT % 'v',
    'num/constants.hpp': 'show( num::pi<double> ); show( num::pi<float> );',
    'num/matrix.hpp': MAT + 'auto b = a * a - 2.0 * num::transposed( a ) + num::eye<double,2>(); for ( auto x : b ) show( x );',
    'num/matrix-io.hpp': MAT + PRINT % 'a',
    'num/fixed-point.hpp': 'num::fixed_point<int,15> a( 1.3 ), b( -0.7 ); show( ( a * b ).as_double() ); show( ( a / b + a - b ).as_double() ); show( a < b ); show( ( a * 3 ).as_double() ); show( ( 0.5 - b ).as_double() );',
    'num/fixed-point-io.hpp': 'num::fixed_point<int,15> a( 1.25 ); ' + PRINT % 'a',
    'std/algorithm.hpp': 'int a[3] = { 1, 2, 3 }, b[3]; std20::copy( a, a + 3, b ); show( b[2] ); show( std20::equal( a, a + 3, b ) ); std20::fill( b, b + 2, 9 ); show( b[0] + b[1] + b[2] );',
    'std/limits.hpp': 'show( std20::numeric_limits<int>::max() ); show( std20::numeric_limits<signed char>::min() );',
    'std/type_traits.hpp': 'show( std20::is_integral<int>::value ); show( std20::is_signed<unsigned>::value ); show( sizeof( std20::remove_cv_t<short const volatile> ) );',
    'std/utility.hpp': 'int a = 1, b = 2; std20::swap( a, b ); show( a * 10 + b ); show( std20::move( a ) ); std::initializer_list<int> l = { 1, 2, 3 }; show( l.size() );',
    'std/complex.hpp': 'std20::complex<double> z( 3, 4 ); show( abs( z ) ); show( real( z * z ) ); show( real( std20::polar( 2., 1. ) ) );',
    'std/cstdint.hpp': 'show( sizeof( std20::int8_t ) + 10 * sizeof( std20::int16_t ) + 100 * sizeof( std20::int32_t ) + 1000 * sizeof( std20::int64_t ) );',
    'std/tuple.hpp': 'std20::tuple<int,double> t( 1, 2.5 ); show( std::get<1>( t ) );',
    'dsp/kalman.hpp': KAL + 'show( k.system_state()( 0 ) ); show( k.system_state()( 1 ) ); show( k.kalman_gain()( 1 ) ); show( k.estimation_error_covariance()( 3 ) ); show( k.time() );',
    'dsp/kalman-io.hpp': MAT + PRINT % 'a',
    'dsp/biquad.hpp': BQ + 'show( q.step( 1 ) ); show( q.step( 2 ) ); show( q.step_df2( 1 ) ); show( q.is_stable() ); show( abs( response( q, 0.1 ) ) ); show( real( q.poles().s0 ) );',
    'dsp/biquad-io.hpp': BQ + PRINT % 'q',
    'dsp/biquad-cascade.hpp': BQ + CAS + 'show( step( c, 1. ) ); show( step( c, 2. ) ); show( is_stable( c ) ); show( abs( response( c, 0.1 ) ) ); show( c.size() );',
    'dsp/biquad-cascade-io.hpp': BQ + CAS + PRINT % 'c',
    'dsp/onepole.hpp': OP + 'show( q.step( 1 ) ); show( q.step( 2 ) ); show( q.is_stable() ); show( abs( response( q, 0.1 ) ) );',
    'dsp/onepole-io.hpp': OP + PRINT % 'q',
    'dsp/onepole-design.hpp': 'auto q = dsp::make_onepole( dsp::onepole_design<dsp::FilterResponse::low_pass>( 100., 1000. ) ); show( q.step( 1 ) ); show( q.step( 1 ) );',
    'dsp/biquad-design.hpp': 'auto q = dsp::make_biquad( dsp::biquad_design<dsp::FilterResponse::peak_band_eq>( 6., 100., 1000., 0.7 ) ); show( q.step( 1 ) ); show( q.step( 1 ) ); auto p = dsp::make_biquad( dsp::biquad_design<dsp::FilterResponse::low_pass>( 0., 100., 1000., 0.7 ) ); show( p.step( 1 ) );',
    'dsp/filter-design.hpp': 'show( dsp::dbV( 10., 1. ) ); show( dsp::dbP( 10., 1. ) ); show( dsp::dbV_factor( 20. ) ); show( dsp::dbP_factor( 20. ) ); show( dsp::prewarp( 100., 1000. ) );',
    'dsp/filter.hpp': 'dsp::Lpf<double> l( 100, 1000, 0.7 ); dsp::Hpf<double> h( 100, 1000, 0.7 ); show( l( 1 ) ); show( h( 1 ) ); show( l( 1 ) );',
    'dsp/chebyshev-design.hpp': CHEB + 'show( d.info.N ); show( d.size() ); show( d.a[1].a1 ); show( d.b[1].b0 );',
    'dsp/chebyshev-design-io.hpp': CHEB + PRINT % 'd.info',
}
CHIP = {h: HOST[h] for h in ('num/constants.hpp', 'num/matrix.hpp', 'num/fixed-point.hpp', 'std/algorithm.hpp', 'std/limits.hpp', 'std/type_traits.hpp', 'std/utility.hpp',
                             'std/cstdint.hpp', 'dsp/kalman.hpp', 'core/shims.hpp', 'core/traits.hpp')}
CHIP.update({
    'std/tuple.hpp': 'std20::ignore i; i = 3;',
    'std/complex.hpp': 'std20::complex<float> z( 3, 4 ); show( z.real() );',
    'mcu/register.hpp': 'using f = mcu::bitfield8_t<mcu::rw_t,0x40,4,2>; f::write( 3 ); show( f::read() ); int volatile v = 0; mcu::atomic( v, 3 ); show( v );',
    'mcu/atmega328.hpp': 'using namespace mcu::atmega328; set( tc0::input::clock::x64 ), set( tc0::output::waveform::ctc ); tc0::reg::tifr0::tov0::clear(); show( adc::conversion::result() ); led<port::B,5>::toggle();',
})

def unit(headers, have, name, chip):
    """a translation unit: the headers first, what it needs itself afterwards"""
    seen = list(dict.fromkeys(headers))
    src = ''.join('#include "%s"\n' % h for h in headers)
    if chip:
        src += 'extern double volatile shown;\ntemplate< typename X > static void show( X x ) { shown = x; }\n'
    else:
        src += ('#include <cstdio>\n#include <sstream>\nstatic void show( double x ) { std::printf( " %.5g", x ); }\n'
                'static void text( char const * t ) { for ( std::putchar( \' \' ); *t; ++t ) std::putchar( *t == \'\\n\' ? \'/\' : *t ); }\n')
    for i, h in enumerate(seen): src += 'void %s_%d()\n{\n%s\n}\n' % (name, i, have[h])
    src += 'void %s()\n{\n' % name
    for i, h in enumerate(seen):
        src += '%s_%d();\n' % (name, i) if chip else 'std::printf( "%s" ); %s_%d(); std::printf( "\\n" );\n' % (h, name, i)
    return src + ('' if chip else 'std::printf( "=\\n" );\n') + '}\n'

def build_run(c, n, cc, units, have, chip):
    d = c.path('p%d' % n); os.makedirs(d)
    files = []
    for k, u in enumerate(units):
        files.append('%s/u%d.cpp' % (d, k)); open(files[-1], 'w').write(unit(u, have, 'unit%d' % k, chip))
    files.append(d + '/main.cpp')
    open(files[-1], 'w').write(('double volatile shown;\n' if chip else '') + ''.join('void unit%d();\n' % k for k in range(len(units))) + 'int main()\n{\n' + ''.join('unit%d();\n' % k for k in range(len(units))) + '}\n')
    ev = dict(ev='program', cc=' '.join(cc), units=units, ok=False, run=not chip, said=[])
    cmd = cc + ['-w', '-I', os.path.join(REPO, 'include'), *files, '-o', d + '/prog']
    why = ''
    for attempt in (0, 1, 2):
        rc, o, e = sh(cmd, timeout=300)
        if rc == 0: ev['ok'] = True; break
        if re.search(r'error:|multiple definition|undefined reference', e) and 'internal compiler error' not in e and 'Killed' not in e: why = first_error(e) if 'error:' in e else e[-300:]; break
    else:
        raise ToolError('compiler failed: ' + e[-300:])
    if ev['ok'] and not chip:
        rc, o, e = sh([d + '/prog'], timeout=60)
        ev['ok'] = rc == 0
        for part in o.split('=\n')[:-1]: ev['said'].append([l.split(' ', 1) if ' ' in l else [l, ''] for l in part.splitlines()])
    if why: ev['why'] = why
    shutil.rmtree(d)
    return ev

@check('H01', 'TLA+ specification of what the names of headers mean, independent of how they are combined (HeaderTrace.tla); generated programs are compiled, linked and run, verdicts and results validated as a trace',
       'All 33 host headers alone, in random orders and repetitions, in one to three translation units; C++17 and C++20, g++ and clang++; 15 headers for the AVR (compiled and linked); thorough: all ordered pairs.')
def H01(c):
    r = random.Random('H01/%d' % c.seed)
    g17, g20, cl = ['g++', '-std=c++17'], ['g++', '-std=c++2a'], ['clang++', '-std=c++17']
    avr = ['avr-g++', '-std=c++17', '-fno-exceptions', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-Os']
    hs, cs = sorted(HOST), sorted(CHIP)
    jobs = [(g17, [[h]], HOST, False) for h in hs]                      # alone
    jobs += [(cc, [[h, h]], HOST, False) for cc in (g20, cl) for h in (hs if not c.quick else r.sample(hs, 6))]
    jobs += [(avr, [[h], [h]], CHIP, True) for h in cs]
    if c.quick: pairs = [r.sample(hs, 2) for _ in range(24)]
    else: pairs = [[a, b] for a in hs for b in hs if a != b]
    jobs += [(g17, [p], HOST, False) for p in pairs]
    def order(pool):
        k = r.choice((2, 3, 4, 6, 9, len(pool)))
        u = r.sample(pool, min(k, len(pool)))
        return u + [r.choice(u) for _ in range(r.randrange(3))]
    for i in range(c.scale(24, 200)): jobs.append((r.choice((g17, g17, g20, cl)), [order(hs) for _ in range(r.choice((1, 2, 2, 3)))], HOST, False))
    for i in range(c.scale(10, 80)): jobs.append((avr, [order(cs) for _ in range(r.choice((1, 2)))], CHIP, True))
    if not c.quick: jobs += [(avr, [[a, b]], CHIP, True) for a in cs for b in cs if a != b]
    evs = c.parallel([lambda n=n, j=j: build_run(c, n, *j) for n, j in enumerate(jobs)])
    out = c.path('headers.nd')
    with open(out, 'w') as f:
        for e in evs: f.write(json.dumps(e) + '\n')
    c.count('programs', len(evs))
    c.sample({'order': evs[len(hs) + 40]['units']}); c.sample({'said': evs[0]['said']})
    c.validate('HeaderTrace', out, traces=len(evs))
