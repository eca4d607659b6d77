----------------------------- MODULE McuTrace ------------------------------
(* Is what the compiled code did to the I/O registers what the called name   *)
(* means? The trace holds, for each call, every access to the data space in  *)
(* order; the hardware state follows from them by the hardware model of Mcu; *)
(* the outcome must be that of the operation, with nothing else changed.     *)
EXTENDS Mcu, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h
vars == <<l, h>>

\* ---- accesses -----------------------------------------------------------------
Stores(acc) == {i \in DOMAIN acc : acc[i][1] # "r"}
StoresTo(acc, a) == {i \in Stores(acc) : acc[i][2] = a}
Reads(acc, a) == {i \in DOMAIN acc : acc[i][1] = "r" /\ acc[i][2] = a}
RECURSIVE Run(_, _, _)
\* state after the accesses; ok says whether the values read were those of the model
Run(s, acc, i) ==
    IF i > Len(acc) \/ ~s.ok THEN s
    ELSE LET x == acc[i] IN
         IF x[2] < \h20 \/ Cpu(x[2]) THEN Run(s, acc, i + 1)
         ELSE IF x[1] = "r" THEN LET b == BusRead(s.h, x[2]) IN Run([h |-> b.h, ok |-> b.v = x[3]], acc, i + 1)
         ELSE IF x[1] = "w" THEN Run([s EXCEPT !.h = BusPut(@, x[2], 255, x[3])], acc, i + 1)
         ELSE Run([s EXCEPT !.h = BusBit(@, x[2], x[3], x[1] = "s")], acc, i + 1)
After(acc) == LET r == Run([h |-> h, ok |-> TRUE], acc, 1) IN r

Same(g1, g2) == g1.m = g2.m /\ g1.f = g2.f
\* high byte of a 16-bit register is read after the low byte
LowFirst(acc, a) == \A i \in Reads(acc, a + 1) : \E j \in Reads(acc, a) : j < i
NoGpr(acc) == \A i \in Stores(acc) : acc[i][2] >= \h20
Gpr(n) == n \in DOMAIN CpuBytes

\* ---- the status register --------------------------------------------------------
SregWrites(acc) == {acc[i][3] : i \in {i \in StoresTo(acc, \h5f) : \A j \in StoresTo(acc, \h5f) : j <= i}}
SregRead(acc) == LET r == Reads(acc, \h5f) IN acc[CHOOSE i \in r : \A j \in r : i <= j][3]
SregOp(e) ==
    LET b == SregBits[e.n]
        before == SregRead(e.acc)
        want == CASE e.o = "wr" -> IF e.a[1] % 256 # 0 THEN 1 ELSE 0 [] e.o = "on" -> 1 [] e.o = "off" -> 0 [] e.o = "tgl" -> 1 - Field(before, b, b)
    IN IF e.o = "rd" THEN Reads(e.acc, \h5f) # {} /\ Stores(e.acc) = {} /\ e.r % 256 = Field(before, b, b) /\ (b \in {6, 7} => e.r % 256 = Field(e.s[1], b, b))
       ELSE \E w \in SregWrites(e.acc) : /\ Field(w, b, b) = want
                                         /\ \A k \in {6, 7} \ {b} : Field(w, k, k) = Field(e.s[1], k, k) /\ Field(e.s[2], k, k) = Field(e.s[1], k, k)
                                         /\ \A k \in 0..5 \ {b} : Field(w, k, k) = Field(before, k, k)
                                         /\ b \in {6, 7} => Field(e.s[2], b, b) = want
\* the value returned is composed of the bytes read at exactly these addresses
CpuRead(e) == LET by == CpuBytes[e.n]
                  val(a) == e.acc[CHOOSE i \in Reads(e.acc, a) : \A k \in Reads(e.acc, a) : k <= i][3]
              IN /\ \A i \in Stores(e.acc) : Cpu(e.acc[i][2])
                 /\ \A i \in DOMAIN by : Reads(e.acc, by[i]) # {}
                 /\ \A i \in DOMAIN e.acc : Cpu(e.acc[i][2]) \/ \E k \in DOMAIN by : by[k] = e.acc[i][2]
                 /\ IF Len(by) = 1 THEN e.r % 256 = val(by[1]) ELSE e.r = val(by[1]) + 256 * val(by[2])

\* ---- operations --------------------------------------------------------------------
All == Registers @@ Settings @@ Leds
Parts(e) == IF e.o \in {"set", "get"} THEN (IF e.n \in DOMAIN Settings THEN Settings[e.n] ELSE ReadOnly[e.n])
            ELSE IF e.n \in DOMAIN Leds THEN Leds[e.n] ELSE Registers[e.n]
RECURSIVE SetAll(_, _, _, _)
SetAll(s, names, args, i) == IF i > Len(names) THEN s ELSE SetAll(Set(s, Settings[names[i]], args[i]), names, args, i + 1)
OneOf(n) == IF n \in DOMAIN Ones THEN Ones[n] ELSE Settings[n]
RECURSIVE SetConst(_, _, _)
SetConst(s, c, i) == IF i > Len(c) THEN s ELSE SetConst(Set(s, OneOf(c[i][1]), c[i][2]), c, i + 1)
Mark(s) == [s EXCEPT !.m[\h4a] = \h5a]
MarkAt(acc) == {i \in Stores(acc) : acc[i][2] = \h4a}
\* every register of the settings is stored once, before the mark
OnceBefore(e, regs) == /\ Cardinality(MarkAt(e.acc)) = 1
                       /\ \A a \in regs : Cardinality(StoresTo(e.acc, a)) = 1 /\ \A i \in StoresTo(e.acc, a), k \in MarkAt(e.acc) : i < k
RegsOf(ps) == {ps[i].a : i \in DOMAIN ps}
\* raw fields of an 8 or 16 bit register
RECURSIVE Raw(_, _, _, _)
Raw(x, f, args, i) == IF i > Len(f) THEN x ELSE Raw(x - Field(x, f[i][1], f[i][2]) * 2 ^ f[i][2] + (args[i] % 2 ^ (f[i][1] - f[i][2] + 1)) * 2 ^ f[i][2], f, args, i + 1)
Word(j) == j.a = \hc4

\* outcome of the call in state h: r is the state after the accesses
Good(e, r) ==
    CASE e.n \in DOMAIN SregBits -> SregOp(e) /\ Same(r, h)
      [] e.n = "sreg" /\ e.o = "rd" -> Stores(e.acc) = {} /\ Reads(e.acc, \h5f) # {} /\ e.r % 256 = SregRead(e.acc) /\ Same(r, h)
      [] e.n = "sreg" /\ e.o = "wr" -> SregWrites(e.acc) = {e.a[1] % 256} /\ e.s[2] = e.a[1] % 256 /\ Same(r, h)
      [] e.n = "sreg" /\ e.o = "scoped" -> SregWrites(e.acc) = {SregRead(e.acc)} /\ (\A k \in {6, 7} : Field(e.s[2], k, k) = Field(e.s[1], k, k)) /\ e.r % 256 = (e.a[1] % 256) \div 2 /\ Same(r, h)
      [] Gpr(e.n) -> CpuRead(e) /\ Same(r, h)
      [] e.o = "adr" -> e.r = Addresses[e.n] /\ Same(r, h)
      [] e.o = "val" -> e.r = TwiStatus[e.a[1] + 1] /\ Same(r, h)
      [] e.o \in {"rd", "get"} -> LET ps == TLCEval(Parts(e)) IN
            /\ Same(r, h)
            /\ e.r = Get(h, ps)
            /\ Width(ps) > 8 /\ ps[1].a \in {\h78, \h84, \h86} => LowFirst(e.acc, ps[1].a) /\ Reads(e.acc, ps[1].a) # {}
      [] e.o \in {"wr", "set"} -> LET ps == TLCEval(Parts(e))
                                      x == IF e.o = "wr" /\ Len(ps) = 1 /\ ps[1].hi = ps[1].lo THEN (IF e.a[1] % 256 = 0 THEN 0 ELSE 1) ELSE e.a[1]
                                  IN Same(r, Set(h, ps, x))
      [] e.o = "on" -> Same(r, Set(h, IF e.n \in DOMAIN Ones THEN Ones[e.n] ELSE Parts(e), 1))
      [] e.o = "one" -> Same(r, Set(h, Ones[e.n], 1))
      [] e.o = "off" -> Same(r, Set(h, Parts(e), 0))
      [] e.o = "tgl" -> LET ps == Parts(e) IN Same(r, Set(h, ps, 1 - Get(h, ps)))
      [] e.o = "stb" -> Same(r, Set(h, B(Strobes[e.n][1], Strobes[e.n][2]), 1))
      [] e.o = "clr" -> Same(r, Clear(h, Flags[e.n]))
      [] e.o = "flg" -> Same(r, h) /\ e.r % 256 = Get(h, B(Flags[e.n][1], Flags[e.n][2]))
      [] e.o = "pwm" -> Same(r, SetAll([h EXCEPT !.m[\h24] = (@ | 2)], <<"tc1_output_a", "tc1_waveform", "tc1_clock">>, <<2, 7, 1>>, 1))
      [] e.o = "cmb" -> LET ns == Joined[e.n] IN /\ Same(r, Mark(SetAll(h, ns, e.a, 1)))
                                                 /\ OnceBefore(e, UNION {RegsOf(Settings[ns[i]]) : i \in DOMAIN ns})
      [] e.o = "cmk" -> LET c == JoinedConst[e.n] IN /\ Same(r, Mark(SetConst(h, c, 1)))
                                                     /\ OnceBefore(e, UNION {RegsOf(OneOf(c[i][1])) : i \in DOMAIN c})
      [] e.o = "cmd" -> LET clk == StoresTo(e.acc, \h45) mk == MarkAt(e.acc) IN
            /\ Same(r, Mark(IF e.n = "discard" THEN h ELSE Set(h, Settings["tc0_clock"], e.a[1])))
            /\ Cardinality(mk) = 1
            /\ Cardinality(clk) = (IF e.n = "discard" THEN 0 ELSE 1)
            /\ \A i \in clk, k \in mk : IF e.n = "mark_after" THEN i < k ELSE k < i
      [] e.o = "j" -> LET j == JoinedRaw[e.n]
                          x == h.m[j.a] + (IF Word(j) THEN 256 * h.m[j.a + 1] ELSE 0)
                          y == Raw(x, j.f, e.a, 1)
                      IN /\ Same(r, [h EXCEPT !.m = IF Word(j) THEN [@ EXCEPT ![j.a] = y % 256, ![j.a + 1] = y \div 256] ELSE [@ EXCEPT ![j.a] = y]])
                         /\ Cardinality(StoresTo(e.acc, j.a)) = 1
                         /\ Word(j) => Cardinality(StoresTo(e.acc, j.a + 1)) = 1

\* a complete table of one field operation over register contents
RowPost(e, x) == LET p2 == 2 ^ (e.hi - e.lo + 1) lo == 2 ^ e.lo cur == (x \div lo) % p2
                     new == CASE e.o \in {"wr", "lz"} -> (IF e.hi = e.lo /\ e.o = "wr" THEN (IF e.v % (2 ^ e.w) = 0 THEN 0 ELSE 1) ELSE e.v % p2)
                              [] e.o = "set" -> 1 [] e.o = "clear" -> 0 [] e.o = "toggle" -> 1 - cur [] e.o = "rd" -> cur
                 IN x - cur * lo + new * lo
Row(e) == /\ e.oth = <<>>
          /\ \A i \in DOMAIN e.pre : e.post[i] = RowPost(e, e.pre[i])
          /\ e.o = "lz" => e.st = <<1, 1>>              \* each byte is stored exactly once
          /\ e.o = "rd" => \A i \in DOMAIN e.pre : (IF e.w = 8 THEN e.ret[i] % 256 ELSE e.ret[i]) = Field(e.pre[i], e.hi, e.lo)

Fresh(e) == [m |-> [a \in IO |-> e.m[a - 31]], t |-> e.t, f |-> {}]
Step(e) == CASE e.e = "hw" -> h' = Fresh(e)
             [] e.e = "poke" -> h' = [h EXCEPT !.m[e.a] = e.v]
             [] e.e = "row" -> Row(e) /\ UNCHANGED h
             [] e.e = "op" -> LET r == After(e.acc) IN
                                 /\ r.ok /\ NoGpr(e.acc)
                                 /\ Good(e, r.h)
                                 /\ h' = [r.h EXCEPT !.f = {}]
TraceInit == l = 1 /\ h = [m |-> [a \in IO |-> 0], t |-> 0, f |-> {}]
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN d = Len(Trace) + 1 \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
