------------------------------ MODULE KalmanPsd -----------------------------
(* The real-valued meaning of Kalman: over exact rationals, from positive    *)
(* semi-definite covariances, the covariance stays positive semi-definite    *)
(* and a measurement never enlarges it.                                      *)
EXTENDS Integers, Sequences, TLC, Rat
CONSTANT MaxN
VARIABLE est
INSTANCE Kalman WITH Zero <- R(0), One <- R(1), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
LA == INSTANCE LinAlg WITH Zero <- R(0), One <- R(1), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
RM(X) == LA!MatMap(X, R)
Half(X) == LA!MatScale(RM(X), RDiv(1, 2))
As == { RM(<<<<1, 1>>, <<0, 1>>>>), Half(<<<<1, 1>>, <<-1, 2>>>>), RM(<<<<2, 0>>, <<1, -1>>>>), RM(<<<<0, 0>>, <<0, 0>>>>) }
Hs == { RM(<<<<1, 0>>>>), RM(<<<<2, -1>>>>), RM(<<<<0, 0>>>>), RM(<<<<1, 0>>, <<0, 1>>>>), Half(<<<<1, 1>>, <<0, 3>>>>) }
Qs == { RM(<<<<0, 0>>, <<0, 0>>>>), RM(<<<<2, 1>>, <<1, 1>>>>), RM(<<<<1, -1>>, <<-1, 1>>>>) }
Rs == { RM(<<<<1>>>>), Half(<<<<1>>>>), RM(<<<<2, 1>>, <<1, 2>>>>) }
Ps == { RM(<<<<0, 0>>, <<0, 0>>>>), RM(<<<<1, 0>>, <<0, 1>>>>), RM(<<<<4, 2>>, <<2, 1>>>>) }
Models == { [A |-> a, B |-> RM(<<<<1>>, <<0>>>>), H |-> h, Q |-> q, R |-> r, dt |-> R(1)] : a \in As, h \in Hs, q \in Qs, r \in Rs }
KOf(m, P) == LET Pm == PPred(m, P)
                 S == Innov(m, Pm)
             IN  LA!MatMul(LA!MatMul(Pm, LA!Transpose(m.H)), LA!MatScale(LA!Adjugate(S), RDiv(1, LA!Det(S))))
After(e, u, z) ==
    LET K == KOf(e.m, e.P)
    IN  [m |-> e.m, x |-> XCorr(e.m, XPred(e.m, e.x, u), K, z), P |-> PCorr(e.m, PPred(e.m, e.P), K), K |-> K, t |-> RAdd(e.t, e.m.dt), n |-> e.n + 1]
Zs(m) == IF Len(m.H) = 1 THEN { RM(<<<<3>>>>) } ELSE { RM(<<<<3>>, <<-2>>>>) }
Next == \/ 1 \notin DOMAIN est /\ \E m \in Models : \E P \in Ps : Len(m.R) = Len(m.H) /\ New(1, m, RM(<<<<1>>, <<2>>>>), P)
        \/ 1 \in DOMAIN est /\ est[1].n < MaxN /\ \E z \in Zs(est[1].m) : Update(1, RM(<<<<1>>>>), z, After(est[1], RM(<<<<1>>>>), z))
Spec == Init /\ [][Next]_est
Psd(X) == RLe(0, X[1][1]) /\ RLe(0, X[2][2]) /\ RLe(0, LA!Det(X))
StaysPsd == \A i \in DOMAIN est : Psd(est[i].P) /\ LA!Symmetric(est[i].P)
Shrinks == [][\A i \in DOMAIN est : est'[i].n > est[i].n => Psd(LA!MatSub(PPred(est[i].m, est[i].P), est'[i].P))]_est
AlwaysRegular == \A i \in DOMAIN est : Regular(est[i].m, est[i].P)
=============================================================================
