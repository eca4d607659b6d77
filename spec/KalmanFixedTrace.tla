-------------------------- MODULE KalmanFixedTrace --------------------------
(* Recorded histories of num::kalman<fixed_point,2,M,U>. Each update is      *)
(* recomputed over numbers that carry their quantization error: a number is  *)
(* [v, e, g, b], the exact value v, a bound e on the distance of the         *)
(* computed value from v, the largest magnitude g met on the way to it, and  *)
(* the number b of fractional bits the way to it may need in any order of    *)
(* evaluation. Every product and quotient adds one quantum, unless its exact *)
(* value is known to be representable; sums are exact. A step all of whose   *)
(* intermediates are representable must come out exactly.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Rat
VARIABLES est, l
FRAC == atoi(IOEnv.FRAC)      \* fractional bits of the type
INTB == atoi(IOEnv.INTB)      \* integral bits
q == RPow2(-FRAC)
Most(a, b) == IF a < b THEN b ELSE a
Num(v, e, g, b) == TLCEval([v |-> v, e |-> e, g |-> RMax(g, RAdd(RAbs(v), e)), b |-> b])
RECURSIVE Bits(_, _)
Bits(v, b) == IF b > FRAC \/ RIsInt(v) THEN b ELSE Bits(RMul(v, 2), b + 1)
Dense == FRAC + 1             \* needs more bits than there are, or is not known exactly
C(v) == TLCEval([v |-> R(v), e |-> R(0), g |-> RAbs(v), b |-> Bits(R(v), 0)])
NAdd(a, b) == Num(RAdd(a.v, b.v), RAdd(a.e, b.e), RMax(a.g, b.g), Most(a.b, b.b))
Fits(a, b) == RSign(a.e) = 0 /\ RSign(b.e) = 0 /\ a.b + b.b <= FRAC
NNeg(a) == [a EXCEPT !.v = RNeg(a.v)]
Err(a, b) == RUp(RAdd(RAdd(RMul(RAbs(a.v), b.e), RMul(RAbs(b.v), a.e)), RAdd(RMul(a.e, b.e), q)))
NMul(a, b) == IF (RSign(a.v) = 0 /\ RSign(a.e) = 0) \/ (RSign(b.v) = 0 /\ RSign(b.e) = 0) THEN Num(R(0), R(0), RMax(a.g, b.g), 0)
              ELSE Num(RMul(a.v, b.v), IF Fits(a, b) THEN R(0) ELSE Err(a, b), RMax(a.g, b.g), Most(0, IF a.b + b.b > Dense THEN Dense ELSE a.b + b.b))
RECURSIVE NDotN(_, _, _)
NDotN(f, g, k) == IF k = 1 THEN NMul(f[1], g[1]) ELSE NAdd(NDotN(f, g, k - 1), NMul(f[k], g[k]))
NDot(f, g) == NDotN(f, g, Len(f))
\* 1/a, if the error of a leaves its reciprocal meaningful
Invertible(a) == RLt(RMul(4, a.e), RAbs(a.v))
NInv(a) == LET i == RDiv(1, a.v)
               b == Bits(i, 0)
           IN  IF RSign(a.e) = 0 /\ a.b <= FRAC /\ b <= FRAC THEN Num(i, R(0), a.g, b)
               ELSE Num(i, RUp(RAdd(q, RDiv(RMul(a.e, RAbs(i)), RSub(RAbs(a.v), a.e)))), a.g, Dense)

K == INSTANCE Kalman WITH Zero <- C(0), One <- C(1), Add <- NAdd, Mul <- NMul, Neg <- NNeg, Dot <- NDot
M == INSTANCE LinAlg WITH Zero <- C(0), One <- C(1), Add <- NAdd, Mul <- NMul, Neg <- NNeg, Dot <- NDot
Trace == ndJsonDeserialize(IOEnv.TRACE)

Exact(X) == M!MatMap(X, C)
\* either off-diagonal entry may be used for the other
Cov(P) == LET a == RAbs(RSub(P[1][2], P[2][1]))
              W(v) == IF RSign(a) = 0 THEN C(v) ELSE Num(R(v), a, R(0), Dense)
          IN  [i \in 1..2 |-> [j \in 1..2 |-> IF i = j THEN C(P[i][j]) ELSE W(P[i][j])]]
Shown(e, s) == s.x = e.x /\ s.P = e.P /\ s.t = e.t /\ ("K" \in DOMAIN e => s.K = e.K)
Model(e) == [A |-> Exact(e.A), B |-> Exact(e.B), H |-> Exact(e.H), Q |-> Exact(e.Q), R |-> Exact(e.R), dt |-> R(e.dt)]
After(e, n, m) == [m |-> m, x |-> e.x, P |-> e.P, K |-> IF "K" \in DOMAIN e THEN e.K ELSE <<>>, t |-> e.t, n |-> n]

G(X) == LET RECURSIVE Rw(_, _)  Rw(r, j) == IF j = 0 THEN R(0) ELSE RMax(r[j].g, Rw(r, j - 1))
            RECURSIVE Mx(_)     Mx(i) == IF i = 0 THEN R(0) ELSE RMax(Rw(X[i], Len(X[i])), Mx(i - 1))
        IN  Mx(Len(X))
\* within four times the bound of this order of evaluation, so that others fit, too
Near(X, Y) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : RLe(RAbs(RSub(X[i][j], Y[i][j].v)), RMul(4, RAdd(q, Y[i][j].e)))

B(X) == LET RECURSIVE Rw(_, _)  Rw(r, j) == IF j = 0 THEN 0 ELSE Most(r[j].b, Rw(r, j - 1))
            RECURSIVE Mx(_)     Mx(i) == IF i = 0 THEN 0 ELSE Most(Rw(X[i], Len(X[i])), Mx(i - 1))
        IN  Mx(Len(X))
NoErr(X) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : RSign(X[i][j].e) = 0
Equal(X, Y) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : REq(X[i][j], Y[i][j].v)

Computed(m, x, P, u, z) ==
    LET xm == K!XPred(m, x, u)
        Pm == K!PPred(m, P)
        S  == K!Innov(m, Pm)
        d  == M!Det(S)
        di == NInv(d)
        adj == M!Adjugate(S)
        Si == M!MatScale(adj, IF RSign(di.e) = 0 THEN di ELSE [di EXCEPT !.e = RAdd(@, q)])
        Kg == M!MatMul(M!MatMul(Pm, M!Transpose(m.H)), Si)
        xn == K!XCorr(m, xm, Kg, z)
        Pn == K!PCorr(m, Pm, Kg)
        bK == B(Kg)
    IN  TLCEval([ok |-> Invertible(d),
                 \* exact in this order of evaluation and, by the bits, in any other, the Joseph form included
                 xx |-> NoErr(xn) /\ NoErr(Kg) /\ bK + Most(B(z), Most(B(m.H) + B(xm), B(S) + B(xm))) <= FRAC,
                 xP |-> NoErr(Pn) /\ NoErr(Kg) /\ 2 * bK + Most(B(S), 2 * B(m.H) + B(Pm)) <= FRAC,
                 g |-> RMax(RMax(G(xn), G(Pn)), RMax(di.g, RAbs(di.v))), K |-> Kg, x |-> xn, P |-> Pn])

StepOk(s, e) ==
    LET y == Computed(s.m, Exact(s.x), Cov(s.P), Exact(e.u), Exact(e.z))
    IN  (y.ok /\ RLe(y.g, RPow2(INTB - 2))) =>
          /\ TLCSet(7, TLCGet(7) + 1)
          /\ IF y.xx \/ y.xP THEN TLCSet(8, TLCGet(8) + 1) /\ Equal(e.K, y.K) ELSE Near(e.K, y.K)
          /\ IF y.xx THEN Equal(e.x, y.x) ELSE Near(e.x, y.x)
          /\ IF y.xP THEN Equal(e.P, y.P) ELSE Near(e.P, y.P)

Step(e) ==
    CASE e.ev = "session" -> est' = <<>>
      [] e.ev = "new"  -> /\ est' = (e.id :> After(e, 0, Model(e))) @@ est
                          /\ e.x = e.x0 /\ e.P = e.P0 /\ REq(e.t, 0)
      [] e.ev = "copy" -> est' = (e.id :> est[e.from]) @@ est /\ Shown(e, est'[e.id])
      [] e.ev = "obs"  -> Shown(e, est[e.id]) /\ UNCHANGED est
      [] e.ev = "same" -> est[e.id] = est[e.of] /\ UNCHANGED est
      [] e.ev = "upd"  -> /\ e.ua = e.u /\ e.za = e.z
                          /\ LET T == RMul(est[e.id].n + 1, est[e.id].m.dt) IN RLt(RAbs(T), RPow2(INTB)) => REq(e.t, T)
                          /\ StepOk(est[e.id], e)
                          /\ est' = [est EXCEPT ![e.id] = After(e, est[e.id].n + 1, est[e.id].m)]
      [] OTHER -> FALSE

TraceInit == l = 1 /\ est = <<>> /\ TLCSet(7, 0) /\ TLCSet(8, 0)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<est, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  /\ PrintT(<<"DECIDED", TLCGet(7)>>) /\ PrintT(<<"EXACT", TLCGet(8)>>)
                     /\ d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
