// Instruction-level simulator of the ATmega328P core (AVRe+), data space and
// the hardware effects of its I/O registers that the checks need. Not derived
// from any other simulator; written from the instruction set manual.
#ifndef KV_AVR_SIM_HPP
#define KV_AVR_SIM_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <elf.h>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace avr {

struct Access { char k; int a; int v; };      // r, w: byte read/written; s, c: single bit set/cleared (v = bit)

struct Sim {
    std::vector<uint8_t> flash = std::vector<uint8_t>(0x10000, 0xff);
    uint8_t d[0x900];                         // data space: registers, I/O, extended I/O, SRAM
    uint32_t pc = 0;                          // word address
    uint64_t steps = 0;
    bool halted = false, bad = false;
    uint32_t badpc = 0; unsigned badop = 0;
    bool afterSei = false;                    // the instruction following SEI runs before an interrupt
    std::map<std::string, uint32_t> sym;      // function symbols: byte address; objects: data address
    // hooks; bus hooks see accesses to 0x20..0xff only
    std::function<int(int a)> busRead;        // returns the byte (d[] holds the memory-like default)
    std::function<void(int a, int v)> busWrite;
    std::function<void(int a, int bit, bool one)> busBit;   // sbi, cbi
    std::function<void()> beforeInsn;
    std::function<void(char k, int a, int v)> memHook;      // SRAM accesses (data), k = r/w

    enum { C = 0, Z = 1, N = 2, V = 3, S = 4, H = 5, T = 6, I = 7, SREG = 0x5f, SPL = 0x5d };

    bool load(char const * fn) {
        FILE * f = fopen(fn, "rb"); if (!f) return false;
        std::vector<char> b; char buf[65536]; size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
        fclose(f);
        auto * eh = (Elf32_Ehdr *)b.data();
        if (b.size() < sizeof *eh || memcmp(eh->e_ident, ELFMAG, 4) || eh->e_machine != EM_AVR) return false;
        for (int i = 0; i < eh->e_phnum; ++i) {
            auto * ph = (Elf32_Phdr *)(b.data() + eh->e_phoff + i * eh->e_phentsize);
            if (ph->p_type != PT_LOAD || ph->p_filesz == 0) continue;
            if (ph->p_paddr + ph->p_filesz > flash.size()) return false;
            memcpy(&flash[ph->p_paddr], b.data() + ph->p_offset, ph->p_filesz);
        }
        for (int i = 0; i < eh->e_shnum; ++i) {
            auto * sh = (Elf32_Shdr *)(b.data() + eh->e_shoff + i * eh->e_shentsize);
            if (sh->sh_type != SHT_SYMTAB) continue;
            auto * st = (Elf32_Shdr *)(b.data() + eh->e_shoff + sh->sh_link * eh->e_shentsize);
            auto * s = (Elf32_Sym *)(b.data() + sh->sh_offset);
            for (unsigned j = 0; j < sh->sh_size / sizeof *s; ++j)
                sym[b.data() + st->sh_offset + s[j].st_name] = s[j].st_value & 0xffff;
        }
        memset(d, 0, sizeof d);
        return true;
    }

    unsigned word(uint32_t a) const { return flash[(2 * a) & 0xffff] | flash[(2 * a + 1) & 0xffff] << 8; }
    bool flag(int b) const { return d[SREG] >> b & 1; }
    void flag(int b, bool v) { d[SREG] = v ? d[SREG] | 1 << b : d[SREG] & ~(1 << b); }
    int pair(int r) const { return d[r] | d[r + 1] << 8; }
    void pair(int r, int v) { d[r] = v; d[r + 1] = v >> 8; }
    int sp() const { return pair(SPL); }
    void sp(int v) { pair(SPL, v); }

    int rd(int a) {
        a &= 0xffff;
        if (a < 0x20) { if (memHook) memHook('r', a, d[a]); return d[a]; }
        if (a < 0x100) return busRead ? busRead(a) & 255 : d[a];
        if (a >= 0x900) { bad = true; badpc = pc; return 0; }
        if (memHook) memHook('r', a, d[a]);
        return d[a];
    }
    void wr(int a, int v) {
        a &= 0xffff; v &= 255;
        if (a < 0x20) { if (memHook) memHook('w', a, v); d[a] = v; return; }
        if (a < 0x100) { if (busWrite) busWrite(a, v); else d[a] = v; return; }
        if (a >= 0x900) { bad = true; badpc = pc; return; }
        if (memHook) memHook('w', a, v);
        d[a] = v;
    }
    void push(int v) { int p = sp(); if (p >= 0x100 && p < 0x900) d[p] = v; else { bad = true; badpc = pc; } sp(p - 1); }
    int pop() { int p = sp() + 1; sp(p); if (p >= 0x100 && p < 0x900) return d[p]; bad = true; badpc = pc; return 0; }
    void pushPc(uint32_t v) { push(v & 255); push(v >> 8 & 255); }
    uint32_t popPc() { int h = pop(); return h << 8 | pop(); }

    void zns(int r) { flag(N, r >> 7 & 1); flag(Z, (r & 255) == 0); flag(S, flag(N) != flag(V)); }
    int add(int a, int b, int c) {
        int r = (a + b + c) & 255;
        int cy = (a & b) | (b & ~r) | (~r & a);
        flag(H, cy >> 3 & 1); flag(C, cy >> 7 & 1);
        flag(V, ((a & b & ~r) | (~a & ~b & r)) >> 7 & 1);
        zns(r); return r;
    }
    int sub(int a, int b, int c, bool keepZ) {
        int r = (a - b - c) & 255; bool z = flag(Z);
        int bw = (~a & b) | (b & r) | (r & ~a);
        flag(H, bw >> 3 & 1); flag(C, bw >> 7 & 1);
        flag(V, ((a & ~b & ~r) | (~a & b & r)) >> 7 & 1);
        zns(r); if (keepZ) flag(Z, r == 0 && z);
        return r;
    }
    int logic(int r) { flag(V, false); zns(r); return r & 255; }
    void mulres(int r, bool frac) { flag(C, r >> 15 & 1); if (frac) r <<= 1; r &= 0xffff; flag(Z, r == 0); pair(0, r); }
    bool two(unsigned w) const { return (w & 0xfe0f) == 0x9000 || (w & 0xfe0f) == 0x9200 || (w & 0xfe0c) == 0x940c; }
    void skip() { pc += two(word(pc)) ? 2 : 1; }

    void step() {
        if (beforeInsn) beforeInsn();
        ++steps;
        bool seiNow = false;
        uint32_t at = pc;
        unsigned w = word(pc++);
        int D = w >> 4 & 31, R = (w & 15) | (w >> 5 & 16), Dh = 16 + (w >> 4 & 15), K = (w & 15) | (w >> 4 & 0xf0);
        switch (w >> 12) {
        case 0:
            if (w == 0) break;
            switch (w >> 8) {
            case 1: d[(w >> 4 & 15) * 2] = d[(w & 15) * 2]; d[(w >> 4 & 15) * 2 + 1] = d[(w & 15) * 2 + 1]; break;
            case 2: mulres((int8_t)d[Dh] * (int8_t)d[16 + (w & 15)], false); break;
            case 3: { int a = d[16 + (w >> 4 & 7)], b = d[16 + (w & 7)];
                switch ((w >> 6 & 2) | (w >> 3 & 1)) {
                case 0: mulres((int8_t)a * b, false); break;
                case 1: mulres(a * b, true); break;
                case 2: mulres((int8_t)a * (int8_t)b, true); break;
                case 3: mulres((int8_t)a * b, true); break; }
                break; }
            default:
                switch (w >> 10) {
                case 1: sub(d[D], d[R], flag(C), true); break;                    // cpc
                case 2: d[D] = sub(d[D], d[R], flag(C), true); break;             // sbc
                case 3: d[D] = add(d[D], d[R], 0); break;                         // add
                default: undef(at, w); }
            }
            break;
        case 1:
            switch (w >> 10 & 3) {
            case 0: if (d[D] == d[R]) skip(); break;                              // cpse
            case 1: sub(d[D], d[R], 0, false); break;                             // cp
            case 2: d[D] = sub(d[D], d[R], 0, false); break;                      // sub
            case 3: d[D] = add(d[D], d[R], flag(C)); break; }                     // adc
            break;
        case 2:
            switch (w >> 10 & 3) {
            case 0: d[D] = logic(d[D] & d[R]); break;
            case 1: d[D] = logic(d[D] ^ d[R]); break;
            case 2: d[D] = logic(d[D] | d[R]); break;
            case 3: d[D] = d[R]; break; }
            break;
        case 3: sub(d[Dh], K, 0, false); break;                                   // cpi
        case 4: d[Dh] = sub(d[Dh], K, flag(C), true); break;                      // sbci
        case 5: d[Dh] = sub(d[Dh], K, 0, false); break;                           // subi
        case 6: d[Dh] = logic(d[Dh] | K); break;
        case 7: d[Dh] = logic(d[Dh] & K); break;
        case 8: case 10: {                                                        // ldd, std
            int q = (w & 7) | (w >> 7 & 0x18) | (w >> 8 & 0x20);
            int a = pair(w & 8 ? 28 : 30) + q;
            if (w & 0x200) wr(a, d[D]); else d[D] = rd(a);
            break; }
        case 9: op9(at, w, D); break;
        case 11: { int a = 0x20 + ((w & 15) | (w >> 5 & 0x30));
            if (w & 0x800) wr(a, d[D]); else d[D] = rd(a);
            break; }
        case 12: pc += ((int)(w << 20)) >> 20; break;                             // rjmp
        case 13: pushPc(pc); pc += ((int)(w << 20)) >> 20; break;                 // rcall
        case 14: d[Dh] = K; break;                                                // ldi
        case 15:
            switch (w >> 9 & 7) {
            case 0: case 1: if (flag(w & 7)) pc += ((int)(w << 22)) >> 25; break;
            case 2: case 3: if (!flag(w & 7)) pc += ((int)(w << 22)) >> 25; break;
            case 4: d[D] = flag(T) ? d[D] | 1 << (w & 7) : d[D] & ~(1 << (w & 7)); break;
            case 5: flag(T, d[D] >> (w & 7) & 1); break;
            case 6: if (!(d[D] >> (w & 7) & 1)) skip(); break;
            case 7: if (d[D] >> (w & 7) & 1) skip(); break; }
            break;
        }
        seiNow = w == 0x9478 || w == 0x9518;
        afterSei = seiNow;
        pc &= 0x7fff;
    }

    void op9(uint32_t at, unsigned w, int D) {
        switch (w >> 8 & 15) {
        case 0: case 1: case 2: case 3: {
            bool st = w & 0x200; int a;
            switch (w & 15) {
            case 0: a = word(pc++); break;                                        // lds, sts
            case 1: a = pair(30); pair(30, a + 1); break;
            case 2: a = pair(30) - 1; pair(30, a); break;
            case 9: a = pair(28); pair(28, a + 1); break;
            case 10: a = pair(28) - 1; pair(28, a); break;
            case 12: a = pair(26); break;
            case 13: a = pair(26); pair(26, a + 1); break;
            case 14: a = pair(26) - 1; pair(26, a); break;
            case 15: if (st) push(d[D]); else d[D] = pop(); return;
            case 4: if (st) { undef(at, w); return; } d[D] = flash[pair(30)]; return;   // lpm
            case 5: if (st) { undef(at, w); return; } { int z = pair(30); d[D] = flash[z]; pair(30, z + 1); } return;
            default: undef(at, w); return; }
            if (st) wr(a, d[D]); else d[D] = rd(a);
            return; }
        case 4: case 5:
            if ((w & 15) == 8) {
                if (w < 0x9500) { flag(w >> 4 & 7, !(w & 0x80)); return; }        // bset, bclr
                switch (w) {
                case 0x9508: pc = popPc(); return;
                case 0x9518: pc = popPc(); flag(I, true); return;
                case 0x9588: case 0x95a8: return;                                 // sleep, wdr
                case 0x9598: halted = true; return;                               // break
                case 0x95c8: d[0] = flash[pair(30)]; return;
                default: undef(at, w); return; }
            }
            switch (w & 15) {
            case 0: { int r = 255 - d[D]; flag(C, true); d[D] = logic(r); return; }
            case 1: { int a = d[D], r = (-a) & 255; flag(H, ((r | a) >> 3) & 1); flag(C, r != 0); flag(V, r == 128); zns(r); d[D] = r; return; }
            case 2: d[D] = d[D] << 4 | d[D] >> 4; return;
            case 3: { int r = (d[D] + 1) & 255; flag(V, r == 128); zns(r); d[D] = r; return; }
            case 10: { int r = (d[D] - 1) & 255; flag(V, r == 127); zns(r); d[D] = r; return; }
            case 5: case 6: case 7: {
                int a = d[D], top = (w & 15) == 5 ? a & 128 : (w & 15) == 6 ? 0 : flag(C) ? 128 : 0;
                int r = a >> 1 | top;
                flag(C, a & 1); flag(N, r >> 7); flag(V, flag(N) != flag(C)); zns(r); d[D] = r; return; }
            case 9: if (w == 0x9409) { pc = pair(30); return; } if (w == 0x9509) { pushPc(pc); pc = pair(30); return; } undef(at, w); return;
            case 12: case 13: case 14: case 15: {
                uint32_t k = ((uint32_t)(w & 1) | (w >> 3 & 0x3e)) << 16 | word(pc++);
                if (w & 2) pushPc(pc);
                pc = k; return; }
            default: undef(at, w); return; }
        case 6: case 7: {                                                         // adiw, sbiw
            int r = 24 + (w >> 3 & 6), k = (w & 15) | (w >> 2 & 0x30), a = pair(r);
            int x = w & 0x100 ? (a - k) & 0xffff : (a + k) & 0xffff;
            if (w & 0x100) { flag(V, (a & ~x) >> 15 & 1); flag(C, (x & ~a) >> 15 & 1); }
            else { flag(V, (~a & x) >> 15 & 1); flag(C, (~x & a) >> 15 & 1); }
            flag(N, x >> 15); flag(Z, x == 0); flag(S, flag(N) != flag(V));
            pair(r, x); return; }
        case 8: case 10: { int a = 0x20 + (w >> 3 & 31), b = w & 7;               // cbi, sbi
            bool one = w & 0x200;
            if (busBit) busBit(a, b, one); else d[a] = one ? d[a] | 1 << b : d[a] & ~(1 << b);
            return; }
        case 9: case 11: { int a = 0x20 + (w >> 3 & 31), b = w & 7, v = rd(a) >> b & 1;   // sbic, sbis
            if (v == ((w >> 9) & 1)) skip();
            return; }
        default: mulres(d[D] * d[(w & 15) | (w >> 5 & 16)], false); return;       // mul
        }
    }

    void undef(uint32_t at, unsigned w) { bad = true; badpc = at; badop = w; halted = true; }

    // run from reset up to symbol `stop` (C runtime initialization)
    bool boot(char const * stop = "main") {
        pc = 0; bad = halted = false; uint32_t t = sym.at(stop) / 2;
        for (int n = 0; n < 2000000 && pc != t; ++n) { step(); if (bad || halted) return false; }
        return pc == t;
    }
    // interrupt: as the hardware does; runs `isr` instead of a vector when given
    void interrupt(std::function<void()> const & isr) { flag(I, false); isr(); flag(I, true); }

    // call a function at byte address f with arguments in the usual registers, until it returns
    static constexpr uint32_t sentinel = 0x7ff0;
    bool call(uint32_t f, long maxSteps = 200000) {
        halted = bad = false;
        int sp0 = sp();
        d[1] = 0;
        pushPc(sentinel); pc = f / 2;
        for (long n = 0; n < maxSteps; ++n) {
            step();
            if (bad) { fprintf(stderr, "simulator: undefined at %04x op %04x\n", 2 * badpc, badop); return false; }
            if (halted) return false;
            if (pc == sentinel) { sp(sp0); return true; }
        }
        sp(sp0);
        return false;
    }
};

} // namespace avr
#endif
