----------------------------- MODULE DesignTrace ------------------------------
(* Filter designs and their helper functions, judged from the coefficients   *)
(* alone, in exact rational arithmetic. Angles are represented by            *)
(* W = tan(theta/2), so cos and sin are rational in W.                       *)
(*   "biquad": gains and stability of biquad designs, boost against cut      *)
(*   "onepole": pole, gains and stability of one-pole designs                *)
(*   "cheby": order, ripple, attenuation, 3 dB point of Chebyshev designs    *)
(*   "db", "factor", "prewarp": helpers                                      *)
EXTENDS Transfer, TLC, Json, IOUtils
VARIABLES l
TOL == atoi(IOEnv.TOL)
Trace == ndJsonDeserialize(IOEnv.TRACE)
U == RPow2(-TOL)
K(e) == TLCEval(RTanPi(RDiv(e.f, e.fs)))
---------------------------------------------------------------------------
(* modulus of c[1] + c[2] z^-1 + c[3] z^-2 at z = exp(i theta), W = tan(theta/2) *)
Mod(c, W) ==
    LET w2 == TLCEval(RMul(W, W))
        d  == TLCEval(RAdd(1, w2))
        co == TLCEval(RTrim(RDiv(RSub(1, w2), d), 200))
        si == TLCEval(RTrim(RDiv(RMul(2, W), d), 200))
        z  == <<co, RNeg(si)>>
        zz == IF Len(c) > 2 THEN CMul(z, z) ELSE <<R(0), R(0)>>
        s  == <<RAdd(RAdd(c[1], RMul(c[2], z[1])), IF Len(c) > 2 THEN RMul(c[3], zz[1]) ELSE R(0)),
                RAdd(RMul(c[2], z[2]), IF Len(c) > 2 THEN RMul(c[3], zz[2]) ELSE R(0))>>
    IN  RTrim(RSqrt(CSq(s)), 240)
\* the value at z = 1 and at z = -1
Dc(c) == TLCEval(LET RECURSIVE S(_) S(k) == IF k = 0 THEN R(0) ELSE RAdd(S(k - 1), c[k]) IN RAbs(S(Len(c))))
Ny(c) == TLCEval(LET RECURSIVE S(_) S(k) == IF k = 0 THEN R(0) ELSE IF k % 2 = 1 THEN RAdd(S(k - 1), c[k]) ELSE RSub(S(k - 1), c[k]) IN RAbs(S(Len(c))))
\* numerator modulus n, denominator modulus d, coefficients b and <<1>> \o a known up to k U of
\* their magnitude: can the gain be g?
Gain(n, d, b, a, g, k) ==
    LET dn == TLCEval(RMul(RMul(U, k), SumAbs(b, Len(b))))
        dd == TLCEval(RMul(U, RAdd(1, SumAbs(a, Len(a)))))
    IN  /\ RLe(RSub(n, dn), RMul(RMul(g, RAdd(1, RMul(k, U))), RAdd(d, dd)))
        /\ RLe(RMul(RMul(g, RSub(1, RMul(k, U))), RMax(0, RSub(d, dd))), RAdd(n, dn))
AtDc(e, g) == Gain(Dc(e.b), Dc(<<R(1)>> \o e.a), e.b, e.a, g, 1)
AtNy(e, g) == Gain(Ny(e.b), Ny(<<R(1)>> \o e.a), e.b, e.a, g, 1)
At(e, W, g, k) == Gain(Mod(e.b, W), Mod(<<R(1)>> \o e.a, W), e.b, e.a, g, k)
Stable2(a) == /\ RLe(RAbs(a[2]), RAdd(1, U))
              /\ RLe(RAbs(a[1]), RAdd(RAdd(1, a[2]), RMul(4, U)))
---------------------------------------------------------------------------
\* relative sensitivity of tan(pi f / fs)
Sens(k) == RAdd(1, RUp(k))
\* the pre-warped band edges: |W^2 - K^2| = W K / Q
Edge(k, q, sgn) == RMul(k, RAdd(RSqrt(RAdd(1, RDiv(1, RMul(4, RMul(q, q))))), RDiv(sgn, RMul(2, q))))
Half(v) == RSqrt(RDiv(RAdd(1, RMul(v, v)), 2))       \* mean power of gains 1 and v
Inverse(e) ==
    /\ RNear(RMul(e.b[1], e.ib[1]), 1, TOL, 1)
    /\ \A i \in 1..2 : /\ RNear(RMul(e.ib[i + 1], e.b[1]), e.a[i], TOL, RAdd(1, SumAbs(e.a, 2)))
                       /\ RNear(RMul(e.ia[i], e.b[1]), e.b[i + 1], TOL, RAdd(RAbs(e.b[1]), SumAbs(e.b, 3)))
BiquadOk(e) ==
    LET k == K(e)  q == R(e.q)  s == Sens(k)
        v == TLCEval(IF e.hasdb THEN RPow10(RDiv(RAbs(e.db), 20)) ELSE R(1))
        cut == e.hasdb /\ RLt(e.db, 0)
        g == IF cut THEN RDiv(1, v) ELSE v
        h == IF cut THEN RDiv(1, Half(v)) ELSE Half(v)
        \* at both edges
        Edges(x) == /\ At(e, TLCEval(Edge(k, q, 1)), x, s) /\ At(e, TLCEval(Edge(k, q, -1)), x, s)
    IN  /\ Len(e.b) = 3 /\ Len(e.a) = 2 /\ \A i \in 1..3 : RFin(e.b[i])
        /\ \A i \in 1..2 : RFin(e.a[i])
        /\ Stable2(e.a) /\ e.made
        /\ e.hasdb => Inverse(e)
        /\ CASE e.kind = "lp" -> AtDc(e, 1) /\ AtNy(e, 0) /\ At(e, k, q, s)
             [] e.kind = "hp" -> AtDc(e, 0) /\ AtNy(e, 1) /\ At(e, k, q, s)
             [] e.kind = "bp" -> AtDc(e, 0) /\ AtNy(e, 0) /\ At(e, k, 1, s) /\ Edges(RSqrt(RDiv(1, 2)))
             [] e.kind = "bs" -> AtDc(e, 1) /\ AtNy(e, 1) /\ At(e, k, 0, s) /\ Edges(RSqrt(RDiv(1, 2)))
             [] e.kind = "ls" -> AtDc(e, g) /\ AtNy(e, 1) /\ At(e, k, h, s)
             [] e.kind = "hs" -> AtDc(e, 1) /\ AtNy(e, g) /\ At(e, k, h, s)
             [] e.kind = "pk" -> AtDc(e, 1) /\ AtNy(e, 1) /\ At(e, k, g, s) /\ Edges(h)
             [] OTHER -> FALSE
---------------------------------------------------------------------------
(* one pole: b0 / (1 + a1 z^-1) *)
OnepoleOk(e) ==
    LET x == RDiv(e.f, e.fs)
        p == IF e.kind = "lp" THEN RExp(RMul(-2, RMul(RPi, x)))
                              ELSE RNeg(RExp(RMul(-2, RMul(RPi, RSub(RDiv(1, 2), x)))))
        \* |1 + a1 z^-1| at the listed frequencies, in order
        D == [i \in 1..Len(e.w) |-> TLCEval(Mod(<<R(1), R(e.a[1])>>, R(e.w[i])))]
    IN  /\ Len(e.b) = 1 /\ Len(e.a) = 1 /\ RFin(e.a[1]) /\ RFin(e.b[1]) /\ e.made
        /\ RNear(e.a[1], RNeg(p), TOL, 1)
        /\ RLe(RAbs(e.a[1]), 1)
        /\ IF e.kind = "lp" THEN AtDc(e, 1) ELSE AtNy(e, 1)
        /\ \A i \in 1..(Len(e.w) - 1) : IF e.kind = "lp" THEN RLe(D[i], D[i + 1]) ELSE RLe(D[i + 1], D[i])
---------------------------------------------------------------------------
(* Chebyshev: sections e.b[i], e.a[i] (i in 1..n), attenuations in dB *)
RECURSIVE Tcheb(_, _)
Tcheb(n, x) == IF n = 0 THEN <<R(1), R(x)>>              \* <<T_n, T_n+1>>
               ELSE LET t == TLCEval(Tcheb(n - 1, x)) IN <<t[2], RSub(RMul(2, RMul(x, t[2])), t[1])>>
\* Products of moduli; n and d are sequences of <<modulus, error>>
RECURSIVE Lo(_, _)
Lo(m, k) == IF k = 0 THEN R(1) ELSE RMul(Lo(m, k - 1), RMax(0, RSub(m[k][1], m[k][2])))
RECURSIVE Hi(_, _)
Hi(m, k) == IF k = 0 THEN R(1) ELSE RMul(Hi(m, k - 1), RAdd(m[k][1], m[k][2]))
ChebyOk(e) ==
    LET ns == Len(e.b)
        wp == TLCEval(RTanPi(RDiv(e.fpass, e.fs)))
        ws == TLCEval(RTanPi(RDiv(e.fstop, e.fs)))
        x  == TLCEval(IF e.kind = "lp" THEN RDiv(ws, wp) ELSE RDiv(wp, ws))
        ap == RMax(e.ap, RDiv(1, 100))
        as == RMax(e.as, RDiv(1, 100))
        ep2 == TLCEval(RSub(RPow10(RDiv(ap, 10)), 1))
        es2 == TLCEval(RSub(RPow10(RDiv(as, 10)), 1))
        ratio == TLCEval(RDiv(es2, ep2))
        t == TLCEval(Tcheb(e.n - 1, x))
        guard == RPow2(-((2 * TOL) \div 3))
        \* slack of gains: relative
        s == TLCEval(RUp(RMul(RMul(RPow2(6), U), RAdd(RAdd(1, RUp(wp)), RDiv(1, RUp(wp))))))
        gp == TLCEval(RTrim(RMul(RSqrt(RDiv(1, RAdd(1, ep2))), RSub(1, s)), 200))
        gs == TLCEval(RTrim(RMul(RSqrt(RDiv(1, RAdd(1, es2))), RAdd(1, RMul(RMul(s, e.n), RAdd(1, RDiv(1, ep2))))), 200))
        top == TLCEval(RAdd(1, s))
        \* the gain of the cascade at f lies between lo and hi
        Between(f, lo, hi) ==
            LET W == TLCEval(RTanPi(RDiv(f, e.fs)))
                n == TLCEval([k \in 1..ns |-> <<Mod(e.b[k], W), RMul(U, SumAbs(e.b[k], 3))>>])
                d == TLCEval([k \in 1..ns |-> <<Mod(<<R(1)>> \o e.a[k], W), RMul(U, RAdd(1, SumAbs(e.a[k], 2)))>>])
            IN  /\ RLe(Lo(n, ns), RMul(hi, Hi(d, ns)))
                /\ RLe(RMul(lo, Lo(d, ns)), Hi(n, ns))
        h3 == RSqrt(RDiv(1, 2))
        s3 == RMul(RPow2(10), RMul(s, e.n * e.n))
    IN  /\ e.made
        /\ e.n >= 1 /\ ns = (e.n + 1) \div 2 /\ Len(e.a) = ns
        /\ RLe(RMul(ratio, RSub(1, guard)), RMul(t[2], t[2]))        \* order suffices
        /\ RLe(RMul(t[1], t[1]), RMul(ratio, RAdd(1, guard)))        \* one less does not
        /\ \A i \in 1..ns : Stable2(e.a[i])
        /\ \A i \in 1..Len(e.pass)  : Between(e.pass[i], gp, top)
        /\ \A i \in 1..Len(e.stop)  : Between(e.stop[i], R(0), gs)
        /\ \A i \in 1..Len(e.other) : Between(e.other[i], R(0), top)
        /\ RFin(e.f3) /\ Between(e.f3, RMul(h3, RSub(1, s3)), RMul(h3, RAdd(1, s3)))
---------------------------------------------------------------------------
(* helpers *)
\* r = k log10(out / in): 10^(r/k) in = out
DbOk(e) == RFin(e.r) /\ RNear(RMul(RPow10(RDiv(e.r, e.k)), e.vin), e.vout, TOL, RMul(e.vout, RAdd(1, RAbs(e.r))))
FactorOk(e) == LET y == TLCEval(RPow10(RDiv(RAbs(e.d), e.k)))
               IN  /\ RNear(e.y, y, TOL, RMul(y, RAdd(1, RAbs(e.d))))
PrewarpOk(e) == LET x == RDiv(e.f, e.fs)
                    lo == RMul(x, RSub(1, U))  hi == RMul(x, RAdd(1, U))
                IN  /\ RFin(e.w)
                    /\ RLe(RMul(RTanPi(lo), RSub(1, U)), e.w)
                    /\ RLt(hi, RDiv(1, 2)) => RLe(e.w, RMul(RTanPi(hi), RAdd(1, U)))
Judge(e) == CASE e.ev = "biquad"  -> BiquadOk(e)
              [] e.ev = "onepole" -> OnepoleOk(e)
              [] e.ev = "cheby"   -> ChebyOk(e)
              [] e.ev = "db"      -> DbOk(e)
              [] e.ev = "factor"  -> FactorOk(e)
              [] e.ev = "prewarp" -> PrewarpOk(e)
              [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
