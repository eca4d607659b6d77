// Runs the AVR driver in the simulator and records what it does to the
// hardware. Usage: avr_drv ops ELF SCRIPT SEED | rows ELF SEED N | join ELF SEED N | atomic ELF SEED | twi ELF SCRIPT
#include "avr_sim.hpp"
#include <string>
#include <vector>
#include <random>
#include <cstdarg>

using avr::Sim;
struct Acc { char k; int a, v; };

// effects of the I/O registers (data sheet)
struct Hw {
    Sim & s;
    std::vector<Acc> acc;
    int temp = 0;
    bool on = true;
    static int w1c(int a) { switch (a) { case 0x35: return 7; case 0x36: return 0x27; case 0x37: return 7; case 0x3b: return 7; case 0x3c: return 3; case 0x7a: return 0x10; case 0x50: return 0x10; case 0xbc: return 0x80; } return 0; }
    static int ro(int a) { switch (a) { case 0x35: case 0x36: case 0x37: case 0x3b: case 0x3c: return 255 - w1c(a); case 0x50: return 0x20; case 0xb9: return 0xf8; case 0xbc: return 0x08; case 0x78: case 0x79: return 255; } return 0; }
    static int strobe(int a) { switch (a) { case 0x45: case 0x82: return 0xc0; } return 0; }
    static int w1s(int a) { return a == 0x7a ? 0x40 : 0; }
    static bool pin(int a) { return a == 0x23 || a == 0x26 || a == 0x29; }
    static bool tempHigh(int a) { return a == 0x85 || a == 0x87 || a == 0x89 || a == 0x8b; }
    void put(int a, int mask, int val) {
        int m = s.d[a], v = val & mask;
        if (pin(a)) { s.d[a + 2] ^= v; return; }
        int n = (m & ~mask) | v;
        n = (n & ~ro(a)) | (m & ro(a));
        n = (n & ~w1c(a)) | (m & ~v & w1c(a));
        n = (n & ~w1s(a)) | ((m | v) & w1s(a));
        n &= ~strobe(a);
        s.d[a] = n;
    }
    int read(int a) {
        int v = s.d[a];
        if (a == 0x85 || a == 0x87) v = temp;
        if (a == 0x84 || a == 0x86) temp = s.d[a + 1];
        if (on) acc.push_back({'r', a, v});
        return v;
    }
    void write(int a, int v) {
        if (on) acc.push_back({'w', a, v});
        if (a == 0x5f || a == 0x5e || a == 0x5d) { s.d[a] = v; return; }
        if (tempHigh(a)) { temp = v; return; }
        put(a, 255, v);
        if (tempHigh(a + 1)) s.d[a + 1] = temp;
    }
    void bit(int a, int b, bool one) {
        if (on) acc.push_back({one ? 's' : 'c', a, b});
        if (pin(a)) { if (one) s.d[a + 2] ^= 1 << b; return; }
        if (w1c(a) || ro(a)) { put(a, 1 << b, one ? 255 : 0); return; }
        put(a, 1 << b, one ? 255 : 0);
    }
    explicit Hw(Sim & s_) : s(s_) {
        s.busRead = [this](int a) { return read(a); };
        s.busWrite = [this](int a, int v) { write(a, v); };
        s.busBit = [this](int a, int b, bool one) { bit(a, b, one); };
        s.memHook = [this](char k, int a, int v) { if (a < 0x20 && on) acc.push_back({k, a, v}); };
    }
};

std::mt19937_64 rng;
int rnd(int n) { return (int)(rng() % (uint64_t)n); }
void pacc(std::vector<Acc> const & acc) {
    printf("\"acc\":[");
    for (size_t i = 0; i < acc.size(); ++i) printf("%s[\"%c\",%d,%d]", i ? "," : "", acc[i].k, acc[i].a, acc[i].v);
    printf("]");
}
bool skipRandom(int a) { return a >= 0x5d && a <= 0x5f; }
void randomHw(Sim & s, Hw & h, int mode) {
    for (int a = 0x20; a < 0x100; ++a) if (!skipRandom(a)) s.d[a] = (mode == 0 ? 0 : mode == 1 ? 255 : rnd(256)) & ~Hw::strobe(a);
    h.temp = rnd(256);
}
void dumpHw(Sim & s, Hw & h) {
    printf("{\"e\":\"hw\",\"t\":%d,\"m\":[", h.temp);
    for (int a = 0x20; a < 0x100; ++a) printf("%s%d", a > 0x20 ? "," : "", skipRandom(a) ? 0 : s.d[a]);
    printf("]}\n");
}
void setArgs(Sim & s, std::vector<int> const & a, bool wide) {
    for (int r = 18; r < 26; ++r) s.d[r] = rnd(256);                  // unspecified otherwise
    int r = 24;
    for (int v : a) { s.d[r] = v; s.d[r + 1] = wide ? v >> 8 : rnd(256); r -= 2; }
}
void scrambleRegs(Sim & s) { for (int r = 2; r < 32; ++r) s.d[r] = rnd(256); s.d[0] = rnd(256); s.d[1] = 0; }

int ops(int, char ** v) {
    Sim s; Hw h(s);
    h.on = false;
    if (!s.load(v[2])) { fprintf(stderr, "cannot load %s\n", v[2]); return 2; }
    FILE * f = fopen(v[3], "r"); if (!f) return 2;
    rng.seed(atoi(v[4]));
    if (!s.boot()) { fprintf(stderr, "boot failed\n"); return 2; }
    char line[400];
    while (fgets(line, sizeof line, f)) {
        char what[20], name[64]; int a[4] = {0, 0, 0, 0}, wide = 0;
        int n = sscanf(line, "%19s %63s %d %d %d %d", what, name, a, a + 1, a + 2, a + 3);
        if (n < 1) continue;
        if (!strcmp(what, "hw")) { randomHw(s, h, n > 1 ? atoi(name) : 2); dumpHw(s, h); continue; }
        if (!strcmp(what, "poke")) {
            int ad = atoi(name), val = a[0] & ~Hw::strobe(ad);
            if (skipRandom(ad)) continue;
            s.d[ad] = val; printf("{\"e\":\"poke\",\"a\":%d,\"v\":%d}\n", ad, val); continue;
        }
        std::string sy = std::string(what) + "_" + name;
        auto it = s.sym.find(sy);
        if (it == s.sym.end()) { fprintf(stderr, "no function %s\n", sy.c_str()); return 2; }
        std::vector<int> args(a, a + (n > 2 ? n - 2 : 0));
        wide = args.size() == 1;
        scrambleRegs(s);
        setArgs(s, args, wide);
        int sreg = rnd(256); s.d[Sim::SREG] = sreg;
        h.acc.clear(); h.on = true;
        if (!s.call(it->second)) { fprintf(stderr, "%s does not return\n", sy.c_str()); return 3; }
        h.on = false;
        printf("{\"e\":\"op\",\"o\":\"%s\",\"n\":\"%s\",\"a\":[", what, name);
        for (size_t i = 0; i < args.size(); ++i) printf("%s%d", i ? "," : "", args[i]);
        printf("],\"r\":%d,\"s\":[%d,%d],", s.pair(24), sreg, s.d[Sim::SREG]); pacc(h.acc); printf("}\n");
        s.d[Sim::SREG] = 0;
    }
    return 0;
}

// fields of all positions: complete tables of one operation over register contents
int rows(int, char ** v) {
    Sim s; Hw h(s); h.on = false;
    if (!s.load(v[2]) || !s.boot()) return 2;
    rng.seed(atoi(v[3])); int level = atoi(v[4]); bool lazy = level >= 10; level %= 10;      // 0: quick; 10: deferred writes only
    auto fp = [&](char const * t, int i) { int a = s.sym.at(t) + 2 * i; return 2u * (unsigned)(s.d[a] | s.d[a + 1] << 8); };
    struct Field { int hi, lo; };
    std::vector<Field> tri, six = { {0,0},{7,7},{8,8},{15,15},{3,0},{7,0},{8,0},{15,0},{15,8},{11,4},{8,7},{9,6},{15,1},{14,0},{12,12},{13,9},{15,12},{2,1},{10,3},{5,5} };
    for (int hi = 0; hi < 8; ++hi) for (int lo = 0; lo <= hi; ++lo) tri.push_back({hi, lo});
    int fail = 0;
    auto row = [&](char const * tab, int idx, char const * o, int addr, int w, Field f, int val, std::vector<int> const & pre) {
        if (lazy && std::string(o) != "lz") return;
        std::vector<int> post, ret; std::vector<int> other; int maxw = 0, minst = 99, maxst = 0;
        for (int p : pre) {
            for (int a = 0x20; a < 0x100; ++a) if (!skipRandom(a)) s.d[a] = rnd(256);
            s.d[addr] = p; if (w == 16) s.d[addr + 1] = p >> 8;
            uint8_t before[256]; memcpy(before, s.d, 256);
            scrambleRegs(s); setArgs(s, {val}, true);
            h.acc.clear(); h.on = true;
            if (!s.call(fp(tab, idx))) { fprintf(stderr, "%s[%d] does not return\n", tab, idx); fail = 3; return; }
            h.on = false;
            post.push_back(s.d[addr] | (w == 16 ? s.d[addr + 1] << 8 : 0));
            ret.push_back(s.pair(24));
            for (int a = 0x20; a < 0x100; ++a) if (!skipRandom(a) && a != addr && !(w == 16 && a == addr + 1) && s.d[a] != before[a]) { if (other.size() < 8) other.push_back(a); }
            for (int b = 0; b < w / 8; ++b) { int st = 0; for (auto & x : h.acc) st += x.k != 'r' && x.a == addr + b; minst = std::min(minst, st); maxst = std::max(maxst, st); }
            for (int a = 0; a < 0x20; ++a) for (auto & x : h.acc) if (x.k == 'w' && x.a == a && other.size() < 8) other.push_back(a);
        }
        (void)maxw;
        printf("{\"e\":\"row\",\"t\":\"%s\",\"o\":\"%s\",\"w\":%d,\"hi\":%d,\"lo\":%d,\"v\":%d,\"st\":[%d,%d],\"pre\":[", tab, o, w, f.hi, f.lo, val, minst, maxst);
        for (size_t i = 0; i < pre.size(); ++i) printf("%s%d", i ? "," : "", pre[i]);
        printf("],\"post\":[");
        for (size_t i = 0; i < pre.size(); ++i) printf("%s%d", i ? "," : "", post[i]);
        printf("],\"ret\":[");
        for (size_t i = 0; i < pre.size(); ++i) printf("%s%d", i ? "," : "", ret[i]);
        printf("],\"oth\":[");
        for (size_t i = 0; i < other.size(); ++i) printf("%s%d", i ? "," : "", other[i]);
        printf("]}\n");
    };
    std::vector<int> all; for (int i = 0; i < 256; ++i) all.push_back(i);
    for (auto g : { std::make_pair("f8io", 0x3e), std::make_pair("f8xt", 0xb3), std::make_pair("f8mi", 0x4b) })
        for (size_t i = 0; i < tri.size(); ++i) {
            auto f = tri[i]; std::string b = g.first;
            row((b + "_rd").c_str(), i, "rd", g.second, 8, f, 0, all);
            std::vector<int> vals; int m = (2 << (f.hi - f.lo)) - 1;
            if (level) vals = all; else { for (int k = 0; k <= m && k < 8; ++k) vals.push_back(k); vals.push_back(m); vals.push_back(255); vals.push_back((m + 1) & 255); vals.push_back(rnd(256)); vals.push_back(128); }
            std::vector<int> pre = all;
            if (!level) { pre.clear(); for (int k = 0; k < 24; ++k) pre.push_back(k < 2 ? 255 * k : rnd(256)); }
            for (int x : vals) { row((b + "_wr").c_str(), i, "wr", g.second, 8, f, x, pre); row((b + "_lz").c_str(), i, "lz", g.second, 8, f, x, pre); }
        }
    for (int b = 0; b < 8; ++b) {
        row("b8io_set", b, "set", 0x3e, 8, {b, b}, 0, all); row("b8io_clear", b, "clear", 0x3e, 8, {b, b}, 0, all); row("b8io_toggle", b, "toggle", 0x3e, 8, {b, b}, 0, all);
        row("b8xt_set", b, "set", 0xb3, 8, {b, b}, 0, all); row("b8xt_clear", b, "clear", 0xb3, 8, {b, b}, 0, all); row("b8xt_toggle", b, "toggle", 0xb3, 8, {b, b}, 0, all);
        row("b8xt_w0clear", b, "clear", 0xb3, 8, {b, b}, 0, all); row("b8xt_rsset", b, "set", 0xb3, 8, {b, b}, 0, all); row("b8xt_trigger", b, "set", 0xb3, 8, {b, b}, 0, all);
        row("b8xt_wset", b, "set", 0xb3, 8, {b, b}, 0, all); row("b8xt_wclear", b, "clear", 0xb3, 8, {b, b}, 0, all);
        for (auto t : { "b8xt_w0rd", "b8xt_rsrd", "b8xt_rtrd", "b8xt_rcrd" }) row(t, b, "rd", 0xb3, 8, {b, b}, 0, all);
    }
    std::vector<int> pre16; for (int i = 0; i < (level ? 200 : 40); ++i) pre16.push_back(i == 0 ? 0 : i == 1 ? 65535 : i < 18 ? 1 << (i - 2) : rnd(65536));
    for (size_t i = 0; i < six.size(); ++i) {
        row("f16_rd", i, "rd", 0xc4, 16, six[i], 0, pre16);
        for (int k = 0; k < (level ? 60 : 12); ++k) { int x = k == 0 ? 0 : k == 1 ? 65535 : k == 2 ? 1 : k == 3 ? 256 : rnd(65536); row("f16_wr", i, "wr", 0xc4, 16, six[i], x, pre16); row("f16_lz", i, "lz", 0xc4, 16, six[i], x, pre16); }
    }
    for (int b = 0; b < 16; ++b) { row("b16_set", b, "set", 0xc4, 16, {b, b}, 0, pre16); row("b16_clear", b, "clear", 0xc4, 16, {b, b}, 0, pre16); row("b16_toggle", b, "toggle", 0xc4, 16, {b, b}, 0, pre16); }
    return fail;
}

int join(int, char ** v) {
    Sim s; Hw h(s); h.on = false;
    if (!s.load(v[2]) || !s.boot()) return 2;
    rng.seed(atoi(v[3])); int n = atoi(v[4]);
    for (auto & p : s.sym) {
        if (p.first.compare(0, 2, "j_")) continue;
        bool wide = p.first.compare(0, 5, "j_x16") == 0;
        for (int k = 0; k < n; ++k) {
            std::vector<int> a; for (int i = 0; i < 4; ++i) a.push_back(rnd(4) == 0 ? (rnd(2) ? 0 : (wide ? 65535 : 255)) : rnd(wide ? 65536 : 256));
            randomHw(s, h, k < 2 ? k : 2); dumpHw(s, h);
            scrambleRegs(s); setArgs(s, a, wide);
            h.acc.clear(); h.on = true;
            if (!s.call(p.second)) { fprintf(stderr, "%s does not return\n", p.first.c_str()); return 3; }
            h.on = false;
            printf("{\"e\":\"op\",\"o\":\"j\",\"n\":\"%s\",\"a\":[%d,%d,%d,%d],\"r\":0,\"s\":[0,0],", p.first.c_str() + 2, a[0], a[1], a[2], a[3]); pacc(h.acc); printf("}\n");
        }
    }
    return 0;
}

// an interrupt at every instruction boundary
int atomic(int, char ** v) {
    Sim s; Hw h(s); h.on = false;
    if (!s.load(v[2]) || !s.boot()) return 2;
    rng.seed(atoi(v[3])); int rep = atoi(v[4]);
    struct Ev { std::string k; long long a, v; };
    std::vector<Ev> ev;
    auto run = [&](std::string const & name, std::string const & var, int size, bool write, int kind) {
        bool hw = var == "hw";
        int at = hw ? 0x88 : s.sym.at(var);
        for (long k = 0; ; ++k) {
            auto val = [&]() { uint32_t x = rng(); return size == 4 ? x : size == 2 ? x & 0xffff : x & 0xff; };
            uint32_t old = val(), arg = val(), isr = val();
            if (name == "awrite_w16") arg &= 0xff;
            for (int i = 0; i < size; ++i) s.d[at + i] = old >> 8 * i;
            h.temp = rnd(256);
            scrambleRegs(s);
            for (int i = 0; i < 4; ++i) s.d[22 + i] = rnd(256);
            int base = size == 4 ? 22 : 24;
            if (write) for (int i = 0; i < size; ++i) s.d[base + i] = arg >> 8 * i;
            ev.clear(); bool pending = false, taken = false; long n = 0; int lastI = -1;
            s.d[Sim::SREG] = 0x80 | rnd(128);
            auto acc = [&](char c, int a, int x) { if (a >= at && a < at + size) ev.push_back({std::string(1, c), a - at, x}); };
            s.memHook = [&](char c, int a, int x) { if (!hw) acc(c, a, x); };
            s.busRead = [&](int a) { int x = h.read(a); if (hw) acc('r', a, x); return x; };
            s.busWrite = [&](int a, int x) { h.write(a, x); if (hw) acc('w', a, x); };
            auto whole = [&]() { uint32_t x = 0; for (int i = 0; i < size; ++i) x |= (uint32_t)s.d[at + i] << 8 * i; return x; };
            s.beforeInsn = [&]() {
                if (s.flag(Sim::I) != lastI) { lastI = s.flag(Sim::I); ev.push_back({"I", 0, lastI}); }
                if (n++ == k) pending = true;
                if (pending && !taken && s.flag(Sim::I) && !s.afterSei) {
                    taken = true;
                    uint32_t seen = whole();
                    ev.push_back({"irq", 0, 0});
                    ev.push_back({"saw", 0, (long long)seen});
                    if (hw) { h.write(0x8b, isr >> 8); h.write(0x8a, isr & 255); }      // the service routine writes OCR1B, sharing TEMP
                    else if (kind) { for (int i = 0; i < size; ++i) s.d[at + i] = isr >> 8 * i; ev.push_back({"put", 0, (long long)isr}); }
                    ev.push_back({"reti", 0, 0});
                }
            };
            bool ok = s.call(s.sym.at(name));
            s.beforeInsn = nullptr;
            if (!ok) { fprintf(stderr, "%s does not return\n", name.c_str()); exit(3); }
            uint32_t ret = 0; for (int i = 0; i < size; ++i) ret |= (uint32_t)s.d[base + i] << 8 * i;
            auto bytes = [&](uint32_t x) { std::string t = "["; for (int i = 0; i < size; ++i) t += (i ? "," : "") + std::to_string(x >> 8 * i & 255); return t + "]"; };
            printf("{\"e\":\"atomic\",\"n\":\"%s\",\"size\":%d,\"o\":\"%s\",\"k\":%ld,\"old\":%s,\"arg\":%s,\"ret\":%s,\"end\":%s,\"iend\":%d,\"ev\":[", name.c_str(), size, write ? "w" : "r", k,
                bytes(old).c_str(), bytes(write ? arg : 0).c_str(), bytes(write ? 0 : ret).c_str(), bytes(whole()).c_str(), (int)s.flag(Sim::I));
            for (size_t i = 0; i < ev.size(); ++i) {
                printf("%s[\"%s\",%lld,", i ? "," : "", ev[i].k.c_str(), ev[i].a);
                if (ev[i].k == "saw" || ev[i].k == "put") printf("%s]", bytes((uint32_t)ev[i].v).c_str()); else printf("[%lld]]", ev[i].v);
            }
            printf("]}\n");
            if (k > n) break;
        }
    };
    for (int r = 0; r < rep; ++r) {
        for (int kind = 0; kind < 2; ++kind) {
            run("aread_v8", "v8", 1, false, kind); run("aread_v16", "v16", 2, false, kind); run("aread_v32", "v32", 4, false, kind); run("aread_p16", "p16", 2, false, kind); run("aread_p32", "p32", 4, false, kind);
            run("awrite_v8", "v8", 1, true, kind); run("awrite_v16", "v16", 2, true, kind); run("awrite_v32", "v32", 4, true, kind); run("awrite_p16", "p16", 2, true, kind); run("awrite_p32", "p32", 4, true, kind);
            run("awrite_w16", "v16", 2, true, kind);
        }
        run("awrite_hw", "hw", 2, true, 0);
    }
    // interrupt enable flag at the marked points of functions with a guard
    s.memHook = nullptr; s.busRead = [&](int a) { return h.read(a); };
    std::vector<std::pair<int,int>> marks;
    s.busWrite = [&](int a, int x) { if (a == 0x4a) marks.push_back({x, s.flag(Sim::I)}); h.write(a, x); };
    for (auto name : { "guard", "guard_return", "guard_call" }) for (int a = 0; a < 6; ++a) {
        scrambleRegs(s); setArgs(s, {a}, false); s.d[Sim::SREG] = 0x80 | rnd(128); marks.clear();
        if (!s.call(s.sym.at(name))) { fprintf(stderr, "%s does not return\n", name); return 3; }
        printf("{\"e\":\"guard\",\"n\":\"%s\",\"a\":%d,\"r\":%d,\"iend\":%d,\"m\":[", name, a, s.d[24], (int)s.flag(Sim::I));
        for (size_t i = 0; i < marks.size(); ++i) printf("%s[%d,%d]", i ? "," : "", marks[i].first, marks[i].second);
        printf("]}\n");
    }
    return 0;
}

// two-wire controller: performs what the stores to TWCR request, after the
// scripted delay, with the scripted status
int twi(int, char ** v) {
    Sim s; Hw h(s); h.on = false;
    if (!s.load(v[2]) || !s.boot()) return 2;
    FILE * f = fopen(v[3], "r"); if (!f) return 2;
    rng.seed(atoi(v[4]));
    char line[400];
    struct Ev { char const * k; int v; };
    while (fgets(line, sizeof line, f)) {
        int m, a, b, st[4], dl[4];
        if (sscanf(line, "write %d %d %d %d %d %d %d %d", &a, &b, st, dl, st + 1, dl + 1, st + 2, dl + 2) == 8) {
            std::vector<Ev> ev; int step = 0; long due = -1; bool busy = false; long reads = 0;
            for (int x = 0xb8; x < 0xbe; ++x) s.d[x] = rnd(256);
            s.d[0xbc] = rnd(2) ? 0x04 : 0x84; s.d[0xb9] = rnd(256) & 0xfb;
            int ps = s.d[0xb9] & 3;
            int prior[6]; for (int x = 0; x < 6; ++x) prior[x] = s.d[0xb8 + x];
            auto complete = [&]() {
                busy = false; s.d[0xb9] = (st[step < 3 ? step : 2] & 0xf8) | ps; s.d[0xbc] |= 0x80; s.d[0xbc] &= ~0x10;
                ev.push_back({"done", st[step < 3 ? step : 2]}); ++step;
            };
            s.busRead = [&](int ad) {
                if (ad == 0xbc && busy) { if (due-- <= 0) complete(); }
                int x = s.d[ad];
                if (ad == 0xb9) { ev.push_back({"stat", x}); }
                if (ad == 0xbc) { if (x & 0x80 || ++reads < 4) ev.push_back({"poll", x >> 7}); }
                return x;
            };
            s.busWrite = [&](int ad, int x) {
                if (ad == 0xbc) {
                    reads = 0;
                    ev.push_back({"twcr", x});
                    int old = s.d[ad];
                    s.d[ad] = (x & 0x75) | (old & 0x08) | (x & 0x80 ? 0 : old & 0x80);
                    if (x & 0x80 && x & 0x04) {
                        if (x & 0x10) { ev.push_back({"stop", 0}); s.d[ad] &= ~0x10; busy = false; }
                        else if (x & 0x20) { ev.push_back({"start", 0}); busy = true; due = step < 3 ? dl[step] : 0; }
                        else { ev.push_back({"send", s.d[0xbb]}); busy = true; due = step < 3 ? dl[step] : 0; }
                    }
                } else if (ad == 0xbb) {
                    ev.push_back({"twdr", x});
                    if (s.d[0xbc] & 0x80) { s.d[ad] = x; s.d[0xbc] &= ~0x08; } else { s.d[0xbc] |= 0x08; ev.push_back({"collision", x}); }
                } else if (ad == 0xb9) { if (ps != (x & 3)) ev.push_back({"other", ad}); s.d[ad] = (s.d[ad] & 0xf8) | (x & 3); ps = x & 3; }
                else { if (s.d[ad] != x && (ad < 0x5d || ad > 0x5f)) ev.push_back({"other", ad}); s.d[ad] = x; }
            };
            s.busBit = [&](int ad, int bit, bool one) { if ((s.d[ad] >> bit & 1) != one) ev.push_back({"other", ad}); s.d[ad] = one ? s.d[ad] | 1 << bit : s.d[ad] & ~(1 << bit); };
            scrambleRegs(s); setArgs(s, {a, b}, false);
            bool ok = s.call(s.sym.at("twi_write"), 6000000);
            printf("{\"e\":\"twi\",\"a\":%d,\"b\":%d,\"ok\":%d,\"r\":%d,\"p\":[%d,%d,%d,%d,%d,%d],\"ev\":[", a, b, (int)ok, s.d[24], prior[0], prior[1], prior[2], prior[3], prior[4], prior[5]);
            for (size_t i = 0; i < ev.size(); ++i) printf("%s[\"%s\",%d]", i ? "," : "", ev[i].k, ev[i].v);
            printf("]}\n");
        } else if ((m = sscanf(line, "init %d %d", &a, &b)) >= 0 && !strncmp(line, "init", 4)) {
            s.busRead = [&](int ad) { return h.read(ad); };
            s.busWrite = [&](int ad, int x) { h.write(ad, x); };
            s.busBit = [&](int ad, int bit, bool one) { h.bit(ad, bit, one); };
            randomHw(s, h, 2);
            uint8_t before[256]; memcpy(before, s.d, 256);
            scrambleRegs(s); if (m == 2) setArgs(s, {a, b}, false);
            bool ok = s.call(s.sym.at(m == 2 ? "twi_init_with" : "twi_init"));
            printf("{\"e\":\"init\",\"dflt\":%d,\"br\":%d,\"ps\":%d,\"ok\":%d,\"pre\":[", m != 2, m == 2 ? a : 12, m == 2 ? b : 0, (int)ok);
            for (int ad = 0x20; ad < 0x100; ++ad) printf("%s%d", ad > 0x20 ? "," : "", skipRandom(ad) ? 0 : before[ad]);
            printf("],\"post\":[");
            for (int ad = 0x20; ad < 0x100; ++ad) printf("%s%d", ad > 0x20 ? "," : "", skipRandom(ad) ? 0 : s.d[ad]);
            printf("]}\n");
        }
    }
    return 0;
}

int main(int n, char ** v) {
    if (n < 3) return 2;
    std::string m = v[1];
    if (m == "ops") return ops(n, v);
    if (m == "rows") return rows(n, v);
    if (m == "join") return join(n, v);
    if (m == "atomic") return atomic(n, v);
    if (m == "twi") return twi(n, v);
    return 2;
}
