// Executes a program of the repository on the simulated ATmega328P, with
// interrupts, conversions and pin changes at random instructions.
//   avr_prog_drv <elf> <prog> <min>:<max> <seed> <events>
// exit status 3: the program leaves the defined behaviour of the processor
#include "avr_sim.hpp"
#include "trace.hpp"
#include <unistd.h>
#include <cstring>
using namespace kv;
int main(int, char ** v) {
    avr::Sim s; if (!s.load(v[1])) return 2;
    std::string prog = v[2]; Rng r(atol(v[4])); long events = atol(v[5]);
    std::map<int, char const *> name = { {0x25, "PORTB"}, {0x24, "DDRB"}, {0x2a, "DDRD"}, {0x2b, "PORTD"}, {0x44, "TCCR0A"}, {0x45, "TCCR0B"}, {0x47, "OCR0A"},
        {0x6e, "TIMSK0"}, {0x80, "TCCR1A"}, {0x81, "TCCR1B"}, {0x88, "OCR1A"}, {0x8a, "OCR1B"}, {0x86, "ICR1"}, {0x7c, "ADMUX"}, {0x7a, "ADCSRA"}, {0x7b, "ADCSRB"} };
    long writes = 0; uint64_t last = 0; int temp = 0; bool lock = false; int adcTemp = 0, adcReg = 0;
    { Line l("session"); l.f("prog", prog).f("lo", atoi(v[3])).f("hi", strchr(v[3], ':') ? atoi(strchr(v[3], ':') + 1) : 1000000); }
    auto log = [&](int a, int val) {
        auto n = name.find(a);
        Line l("w"); l.f("r", n == name.end() ? "other " + std::to_string(a) : std::string(n->second)).f("v", val).f("dt", (int)std::min<uint64_t>(s.steps - last, 1000000));
        last = s.steps; ++writes;
    };
    auto is16 = [](int a) { return a == 0x86 || a == 0x88 || a == 0x8a; };
    s.busRead = [&](int a) {
        if (a == 0x78) { lock = true; adcTemp = adcReg >> 8; return adcReg & 255; }
        if (a == 0x79) { if (!lock) return adcReg >> 8; lock = false; return adcTemp; }
        return (int)s.d[a];
    };
    s.busWrite = [&](int a, int x) {
        if (a >= 0x5d && a <= 0x5f) { s.d[a] = x; return; }
        if (a == 0x23 || a == 0x26 || a == 0x29) { a += 2; x ^= s.d[a]; }           // writing to PINx toggles
        if (is16(a - 1)) { temp = x; return; }
        if (is16(a)) { s.d[a] = x; s.d[a + 1] = temp; log(a, temp << 8 | x); return; }
        if ((prog == "fade" && a == 0x47) || s.d[a] != x) { s.d[a] = x; log(a, x); }
    };
    s.busBit = [&](int a, int b, bool one) {
        if (a == 0x23 || a == 0x26 || a == 0x29) { if (one) { a += 2; s.d[a] ^= 1 << b; log(a, s.d[a]); } return; }
        int x = one ? s.d[a] | 1 << b : s.d[a] & ~(1 << b);
        if (x != s.d[a]) { s.d[a] = x; log(a, x); }
    };
    bool on = false, halted = false; int depth = 0;
    auto run = [&](long n) {          // true: still running
        for (; n > 0 && writes < 3000000; --n) {
            unsigned w = s.word(s.pc);
            if (w == 0xcfff && !s.flag(s.I)) { halted = true; return false; }         // rjmp to itself with interrupts off: the end
            s.step();
            if (s.bad) { fprintf(stderr, "undefined instruction or access at %04x op %04x\n", 2 * s.badpc, s.badop); exit(3); }
            if (w == 0x9518) --depth;
            if (!on && depth == 0 && s.flag(s.I)) { on = true; Line l("on"); }
        }
        return true;
    };
    auto interrupt = [&](int vector) {
        while (!s.flag(s.I) || s.afterSei) if (!run(1)) return false;
        s.flag(s.I, false); s.pushPc(s.pc); s.pc = 2 * vector; ++depth;
        return true;
    };
    s.pc = 0;
    long idle = prog == "fade" ? 400 : 1200;
    if (prog == "none") { run(400000000); }
    else if (prog == "blink" || prog == "time") { while (writes < events && s.steps < 4000000000ull) run(1000); }
    else if (prog == "fade") {
        while (s.steps < (uint64_t)events) {
            long gap = r.chance(1, 3) ? r.range(0, 60) : r.range(100, 40000);
            run(gap);
            if (gap >= idle && s.d[0x88] + 256 * s.d[0x89] + s.d[0x8a] + 256 * s.d[0x8b] != 0) { Line l("idle"); }
            s.d[0x29] = r.chance(1, 2) ? s.d[0x29] & ~1 : s.d[0x29] | 1;
            { Line l("pin"); l.f("v", s.d[0x29] & 1); }
        }
    } else {
        run(4000);                    // a configured program has enabled its interrupts by then
        int level = r.below(1024);
        // for about a second at a time, conversions keep giving a level at an end of a range
        int const edge[] = { 1023, 0, -1, 3, 2, 1022, -1, 512, 511, 4, -1, 1 }; int at = r.below(12);
        int const second = prog == "dac" ? 1240 : 60;
        for (long k = 0; k < events && !halted; ++k) {
            bool conv = r.chance(prog == "adcisr" ? 9 : 2, 10);
            if (conv) {
                switch (r.below(8)) { case 0: level = r.below(1024); break; case 1: level = 508 + r.below(10); break; case 2: level = r.below(6); break;
                    case 3: level = 1018 + r.below(6); break; case 4: level = 255 + r.below(3) * 256; break; default: level = (level + r.range(-90, 90)) & 1023; }
                if (edge[(at + k / second) % 12] >= 0 && !r.chance(1, 8)) level = edge[(at + k / second) % 12];
                bool runs = (s.d[0x7a] & 0xe0) == 0xe0;
                if (!lock) adcReg = s.d[0x7c] & 0x20 ? level << 6 : level;            // free running: a new result
                if (runs && (s.d[0x7a] & 8)) { if (interrupt(21)) { Line l("adc"); l.f("v", level); } }
            } else if ((s.d[0x45] & 7) && (s.d[0x6e] & 2)) { if (interrupt(14)) { Line l("tick"); } }
            long gap = r.chance(1, 12) ? r.range(0, 90) : r.chance(1, 8) ? r.range(1200, 4000) : r.range(100, 500);
            if (!run(gap)) break;
            if (gap >= idle) { Line l("idle"); }
        }
        run(2000);
        { Line l("idle"); }
    }
    { Line l("end"); l.f("halted", halted).f("writes", (int)writes); }
    fprintf(stderr, "%llu instructions\n", (unsigned long long)s.steps);
}
