// Executes a firmware of avr_num_fw.cpp and turns what it sends into a trace.
//   avr_num_drv <elf> <seed> <size> <what>
// exit status 3: the firmware does not come to its end
#include "avr_sim.hpp"
#include <cmath>
static std::vector<uint8_t> in; static size_t at;
static int get() { if (at >= in.size()) { fprintf(stderr, "record ends early\n"); exit(3); } return in[at++]; }
static std::string str() { std::string s; while (int c = get()) s += (char)c; return s; }
static int64_t num(int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)get() << 8 * i; return n == 4 ? (int32_t)v : (int64_t)v; }
static std::string integer(int64_t v) { return v >= -2147483647 && v <= 2147483647 ? std::to_string(v) : "\"d:" + std::to_string(v) + '"'; }
static std::string hex(double x) { if (std::isnan(x)) return "\"nan\""; char b[64]; snprintf(b, sizeof b, "\"%a\"", x); return b; }
static std::string fields(int stop);
static std::string value() {
    int k = get();
    switch (k) {
        case 'i': return integer(num(4));
        case 'q': return integer(num(8));
        case 'Q': return "\"d:" + std::to_string((uint64_t)num(8)) + '"';
        case 'b': return get() ? "true" : "false";
        case 'f': { uint32_t u = (uint32_t)num(4); float x; memcpy(&x, &u, 4); return hex(x); }
        case 'x': { int F = get(); return hex(std::ldexp((double)num(4), -F)); }
        case 's': return '"' + str() + '"';
        case 'v': { int n = get(); std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ','; s += value(); } return s + "]"; }
        case 'O': return "{" + fields('P') + "}";
        default: fprintf(stderr, "record has no value at %zu\n", at); exit(3);
    }
}
static std::string fields(int stop) {
    std::string s;
    for (;;) { int c = get(); if (c == stop) return s; if (c != 'K') { fprintf(stderr, "record has no field at %zu\n", at); exit(3); } if (s.size()) s += ','; s += '"' + str() + "\":"; s += value(); }
}
int main(int, char ** v) {
    avr::Sim s; if (!s.load(v[1])) return 2;
    long seed = atol(v[2]), size = atol(v[3]), what = atol(v[4]);
    s.d[0x3e] = seed; s.d[0x4a] = seed >> 8; s.d[0x4b] = seed >> 16; s.d[0xbb] = size; s.d[0xbc] = size >> 8; s.d[0xb8] = what;
    s.busWrite = [&](int a, int x) { if (a == 0xc6) in.push_back(x); else s.d[a] = x; };
    s.pc = 0;
    for (uint64_t n = 0; n < 40000000000ull && !s.halted && !s.bad && in.size() < 400000000u; ++n) s.step();
    if (s.bad) { fprintf(stderr, "undefined instruction or access at %04x op %04x\n", 2 * s.badpc, s.badop); return 3; }
    if (!s.halted || in.empty() || in.back() != 'Z') { fprintf(stderr, "the firmware does not come to its end\n"); return 3; }
    in.pop_back();
    while (at < in.size()) {
        if (get() != 'L') { fprintf(stderr, "no record at %zu\n", at); return 3; }
        std::string s = "{\"ev\":\"" + str() + "\""; std::string f = fields('E');
        puts((s + (f.empty() ? "" : "," + f) + "}").c_str());
    }
    fprintf(stderr, "%llu instructions\n", (unsigned long long)s.steps);
}
