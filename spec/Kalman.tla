------------------------------- MODULE Kalman -------------------------------
(* Any number of discrete Kalman estimators living side by side.             *)
(*                                                                           *)
(* est[i] is the estimator named i:                                          *)
(*   m       its model [A, B, H, Q, R, dt], fixed at construction            *)
(*   x, P    state estimate (column) and estimation error covariance         *)
(*   K       the gain of the last update (<<>> before the first)             *)
(*   t, n    elapsed time and (ghost) number of updates                      *)
(*                                                                           *)
(* The specification is relational in the gain: K is *the* solution of       *)
(* K S = Pm H', which exists uniquely when the innovation covariance S is    *)
(* invertible, so no particular way to compute the inverse is prescribed.    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, One, Add(_, _), Mul(_, _), Neg(_), Dot(_, _)
VARIABLE est
LOCAL INSTANCE LinAlg

\* time update
XPred(m, x, u) == MatAdd(MatMul(m.A, x), MatMul(m.B, u))
PPred(m, P)    == MatAdd(MatMul(MatMul(m.A, P), Transpose(m.A)), m.Q)
\* measurement update
Innov(m, Pm)   == MatAdd(MatMul(MatMul(m.H, Pm), Transpose(m.H)), m.R)
Gain(m, Pm, K) == MatMul(K, Innov(m, Pm)) = MatMul(Pm, Transpose(m.H))
XCorr(m, xm, K, z) == MatAdd(xm, MatMul(K, MatSub(z, MatMul(m.H, xm))))
PCorr(m, Pm, K)    == MatMul(MatSub(Ident(Rows(Pm)), MatMul(K, m.H)), Pm)

Regular(m, P) == Det(Innov(m, PPred(m, P))) # Zero

\* f is the successor of estimator e under control u and measurement z
StepRel(e, f, u, z) ==
    LET xm == XPred(e.m, e.x, u)
        Pm == PPred(e.m, e.P)
    IN  /\ f.m = e.m
        /\ Gain(e.m, Pm, f.K)
        /\ f.x = XCorr(e.m, xm, f.K, z)
        /\ f.P = PCorr(e.m, Pm, f.K)
        /\ f.t = Add(e.t, e.m.dt)
        /\ f.n = e.n + 1

Init == est = <<>>
New(i, m, x, P) == est' = (i :> [m |-> m, x |-> x, P |-> P, K |-> <<>>, t |-> Zero, n |-> 0]) @@ est
Copy(i, j)      == j \in DOMAIN est /\ est' = (i :> est[j]) @@ est
Update(i, u, z, f) == i \in DOMAIN est /\ StepRel(est[i], f, u, z) /\ est' = [est EXCEPT ![i] = f]
Observe(i)      == i \in DOMAIN est /\ UNCHANGED est

-----------------------------------------------------------------------------
\* consequences, checked on models of this specification
RECURSIVE Times(_, _)
Times(n, v) == IF n = 0 THEN Zero ELSE Add(Times(n - 1, v), v)
TimeIsUpdates  == \A i \in DOMAIN est : est[i].t = Times(est[i].n, est[i].m.dt)
StaysSymmetric == \A i \in DOMAIN est : Symmetric(est[i].P)
\* the short covariance update equals the symmetric (Joseph) form
JosephOf(e, f) ==
    LET Pm == PPred(e.m, e.P)
        L  == MatSub(Ident(Rows(Pm)), MatMul(f.K, e.m.H))
    IN  MatAdd(MatMul(MatMul(L, Pm), Transpose(L)), MatMul(MatMul(f.K, e.m.R), Transpose(f.K)))
=============================================================================
