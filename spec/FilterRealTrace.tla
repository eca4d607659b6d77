--------------------------- MODULE FilterRealTrace ----------------------------
(* Sections in floating point. "sample": one step of a history; each output  *)
(* satisfies the difference equation in terms of the observed inputs and     *)
(* outputs, up to rounding at the present signal level. "pz", "pz1": poles,  *)
(* zeros and stability against the coefficients. "zpk": construction from    *)
(* zeros, poles and gain. "resp": frequency response of sections and         *)
(* cascades. Everything is evaluated in exact rational arithmetic.           *)
EXTENDS Transfer, TLC, Json, IOUtils
VARIABLES cur, l
TOL == atoi(IOEnv.TOL)
ETA == RPow2(atoi(IOEnv.ETA))       \* underflow
Trace == ndJsonDeserialize(IOEnv.TRACE)
F == INSTANCE Filter WITH Zero <- R(0), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot

---------------------------------------------------------------------------
(* cur: the section being filtered, as in Filter.tla but with the outputs    *)
(* observed rather than computed, and the signal levels of the last samples. *)
Begin(e) == cur' = [s |-> F!Fresh(Ex(e.b), Ex(e.a)), lev |-> <<R(0), R(0)>>, n |-> IF e.warm THEN 0 ELSE 2,
                    g |-> RUp(RMul(RAdd(1, SumAbs(e.a, Len(e.a))), RAdd(1, SumAbs(e.b, Len(e.b)))))]
Sample(e) ==
    LET lev == TLCEval(RUp(RMax(RMax(RAbs(e.x), RAbs(e.y)), MaxAbs(e.v, Len(e.v)))))
    IN  /\ cur.n >= 2 => /\ RFin(e.y)
                         /\ RNear(e.y, F!Out(cur.s, R(e.x)), TOL, RMul(cur.g, RAdd(RMax(lev, RMax(cur.lev[1], cur.lev[2])), ETA)))
        /\ cur' = [cur EXCEPT !.s.x = <<R(e.x), @[1]>>, !.s.y = <<R(e.y), @[1]>>, !.lev = <<lev, @[1]>>, !.n = @ + 1]
Kept(e) == Ex(e.b) = cur.s.b /\ Ex(e.a) = cur.s.a /\ UNCHANGED cur
---------------------------------------------------------------------------
(* roots: s = <<<<re, im>>, <<re, im>>>> of  c0 z^2 + c1 z + c2 *)
Roots(s, c0, c1, c2) ==
    LET u == s[1]  v == s[2]
        m1 == RAdd(RMul(RAbs(c0), RAdd(RAdd(RAbs(u[1]), RAbs(v[1])), RAdd(RAbs(u[2]), RAbs(v[2])))), RAdd(RAbs(c1), ETA))
        m2 == RAdd(RAdd(RAbs(RDiv(RMul(c1, c1), c0)), RAbs(c2)), ETA)
    IN  /\ RNear(RMul(c0, RAdd(u[1], v[1])), RNeg(c1), TOL, m1)
        /\ RNear(RMul(c0, RAdd(u[2], v[2])), 0, TOL, m1)
        /\ RNear(RMul(c0, RSub(RMul(u[1], v[1]), RMul(u[2], v[2]))), c2, TOL, m2)
        /\ RNear(RMul(c0, RAdd(RMul(u[1], v[2]), RMul(u[2], v[1]))), 0, TOL, m2)
Band == RPow2(-(TOL \div 2 - 3))
StableOk(flag, a1, a2) ==
    LET w == RMul(Band, RAdd(1, RAbs(a1)))
    IN  /\ (Within(a1, a2, RSub(1, w)) /\ RLt(w, 1) => flag)
        /\ (~Within(a1, a2, RAdd(1, w)) => ~flag)
PzOk(e) == LET b == Ex(e.b) a == Ex(e.a)
           IN  /\ Roots(e.p, R(1), a[1], a[2])
               /\ (e.hasz => Roots(e.z, b[1], b[2], b[3]))
               /\ StableOk(e.stable, a[1], a[2])
               /\ e.same
\* few-bit real roots r1, r2: no rounding anywhere, the boundary itself is judged
PzExact(e) == LET r1 == R(e.r1) r2 == R(e.r2) a == Ex(e.a)
                  u == <<e.p[1][1], e.p[1][2]>>  v == <<e.p[2][1], e.p[2][2]>>
              IN  /\ a[1] = RNeg(RAdd(r1, r2)) /\ a[2] = RMul(r1, r2)       \* of the driver
                  /\ REq(u[2], 0) /\ REq(v[2], 0)
                  /\ (REq(u[1], r1) /\ REq(v[1], r2)) \/ (REq(u[1], r2) /\ REq(v[1], r1))
                  /\ e.stable = (RLe(RAbs(r1), 1) /\ RLe(RAbs(r2), 1))
Pz1Ok(e) == /\ REq(e.p[1], RNeg(e.a[1])) /\ REq(e.p[2], 0)
            /\ REq(e.z[1], 0) /\ REq(e.z[2], 0)
            /\ e.stable = RLe(RAbs(e.a[1]), 1) /\ e.same

\* zeros z, poles p, gain k: coefficients are those of k (x - z1)(x - z2) / ((x - p1)(x - p2))
Quad(c, s, k) == LET u == s[1] v == s[2]
                     m == RAdd(RAdd(RAbs(u[1]), RAbs(v[1])), RAdd(RAbs(u[2]), RAbs(v[2])))
                 IN  /\ RNear(c[1], RMul(k, RNeg(RAdd(u[1], v[1]))), TOL, RAdd(RMul(RAbs(k), m), ETA))
                     /\ RNear(c[2], RMul(k, RSub(RMul(u[1], v[1]), RMul(u[2], v[2]))), TOL, RAdd(RMul(RAbs(k), RMul(m, m)), ETA))
ZpkOk(e) == /\ REq(e.b[1], e.k) /\ Quad(<<e.b[2], e.b[3]>>, e.z, R(e.k)) /\ Quad(e.a, e.p, R(1))
            /\ \A i \in 1..Len(e.w) : REq(e.w[i], 0)
Zpk1Ok(e) == REq(e.b[1], e.k) /\ REq(e.a[1], RNeg(e.p[1])) /\ \A i \in 1..Len(e.w) : REq(e.w[i], 0)

---------------------------------------------------------------------------
(* responses *)
RECURSIVE Num(_, _, _)
Num(secs, f, k) == IF k = 0 THEN <<R(1), R(0)>> ELSE CMul(Num(secs, f, k - 1), Poly(secs[k].b, f, Len(secs[k].b)))
RECURSIVE Den(_, _, _)
Den(secs, f, k) == IF k = 0 THEN <<R(1), R(0)>> ELSE CMul(Den(secs, f, k - 1), Poly(<<R(1)>> \o secs[k].a, f, Len(secs[k].a) + 1))
\* Products of factors, each off by c 2^-TOL of its magnitude: the product of the moduli (at
\* least), and of the moduli increased by that error. Their difference bounds the error.
NumMod(s, f) == CAbs1(Poly(s.b, f, Len(s.b)))
DenMod(s, f) == CAbs1(Poly(<<R(1)>> \o s.a, f, Len(s.a) + 1))
Err(s, f) == RMul(RPow2(-TOL), RMul(RAdd(1, RAbs(f)), s))
RECURSIVE NumHi(_, _, _)
NumHi(secs, f, k) == IF k = 0 THEN R(1) ELSE RMul(NumHi(secs, f, k - 1), RUp(RAdd(NumMod(secs[k], f), Err(SumAbs(secs[k].b, Len(secs[k].b)), f))))
RECURSIVE DenHi(_, _, _)
DenHi(secs, f, k) == IF k = 0 THEN R(1) ELSE RMul(DenHi(secs, f, k - 1), RUp(RAdd(DenMod(secs[k], f), Err(RAdd(1, SumAbs(secs[k].a, Len(secs[k].a))), f))))
RECURSIVE NumLo(_, _, _)
NumLo(secs, f, k) == IF k = 0 THEN R(1) ELSE RMul(NumLo(secs, f, k - 1), NumMod(secs[k], f))
RECURSIVE DenLo(_, _, _)
DenLo(secs, f, k) == IF k = 0 THEN R(1) ELSE RMul(DenLo(secs, f, k - 1), DenMod(secs[k], f))
RespOk(e) ==
    \A i \in 1..Len(e.f) :
        LET f == R(e.f[i])  s == e.secs
            n == TLCEval(Num(s, f, Len(s)))  d == TLCEval(Den(s, f, Len(s)))
            r == <<R(e.re[i]), R(e.im[i])>>
            dn == TLCEval(RSub(NumHi(s, f, Len(s)), NumLo(s, f, Len(s))))
            dd == TLCEval(RSub(DenHi(s, f, Len(s)), DenLo(s, f, Len(s))))
            lhs == CMul(r, d)
        IN  IF RLe(CAbs1(d), RMul(2, dd)) THEN TRUE                            \* at a pole
            ELSE /\ RFin(e.re[i]) /\ RFin(e.im[i])
                 /\ LET m == RAdd(RAdd(RMul(CAbs1(r), dd), dn), RAdd(RMul(RPow2(-TOL), RAdd(CAbs1(n), CAbs1(lhs))), ETA))
                    IN  RLe(RAbs(RSub(lhs[1], n[1])), m) /\ RLe(RAbs(RSub(lhs[2], n[2])), m)
\* a cascade is stable exactly when all its sections are
Clear(s) == LET w == RMul(Band, RAdd(1, RAbs(s.a[1]))) IN RLt(w, 1) /\ Within(R(s.a[1]), R(s.a[2]), RSub(1, w))
Bad(s) == LET w == RMul(Band, RAdd(1, RAbs(s.a[1]))) IN ~Within(R(s.a[1]), R(s.a[2]), RAdd(1, w))
CStabOk(e) == /\ ((\A k \in 1..Len(e.secs) : Clear(e.secs[k])) => e.stable)
              /\ ((\E k \in 1..Len(e.secs) : Bad(e.secs[k])) => ~e.stable)

Judge(e) == CASE e.ev = "pz"   -> PzOk(e)
              [] e.ev = "pzx"  -> PzExact(e)
              [] e.ev = "pz1"  -> Pz1Ok(e)
              [] e.ev = "zpk"  -> ZpkOk(e)
              [] e.ev = "zpk1" -> Zpk1Ok(e)
              [] e.ev = "resp" -> RespOk(e) /\ e.same
              [] e.ev = "cstab" -> CStabOk(e) /\ e.same
              [] OTHER -> FALSE
Step(e) == CASE e.ev = "begin"  -> Begin(e)
             [] e.ev = "sample" -> Sample(e)
             [] e.ev = "kept"   -> Kept(e)
             [] OTHER -> Judge(e) /\ UNCHANGED cur
TraceInit == l = 1 /\ cur = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cur, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
