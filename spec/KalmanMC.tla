------------------------------ MODULE KalmanMC ------------------------------
(* Exhaustive exploration of Kalman over the field of three elements, where  *)
(* every matrix can be enumerated: two estimators, all small histories.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxN
P_ == 3
F == 0..2
FAdd(a, b) == (a + b) % P_
FMul(a, b) == (a * b) % P_
FNeg(a) == (P_ - a) % P_
RECURSIVE FDotN(_, _, _)
FDotN(f, g, k) == IF k = 0 THEN 0 ELSE (FDotN(f, g, k - 1) + f[k] * g[k]) % P_
FDot(f, g) == FDotN(f, g, Len(f))
VARIABLE est
INSTANCE Kalman WITH Zero <- 0, One <- 1, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot
LA == INSTANCE LinAlg WITH Zero <- 0, One <- 1, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot

SymM == { <<<<a, b>>, <<b, c>>>> : a \in F, b \in F, c \in F }
Models == { [A |-> A, B |-> B, H |-> H, Q |-> Q, R |-> R, dt |-> d] :
            A \in { <<<<1, 1>>, <<0, 1>>>>, <<<<0, 2>>, <<1, 1>>>>, <<<<1, 2>>, <<2, 1>>>> },
            B \in { <<<<1>>, <<2>>>> },
            H \in { <<<<1, 0>>>>, <<<<2, 1>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<1, 2>>, <<0, 1>>>> },
            Q \in { <<<<0, 0>>, <<0, 0>>>>, <<<<1, 2>>, <<2, 0>>>> },
            R \in { <<<<1>>>>, <<<<2>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<1, 2>>>> },
            d \in {1, 2} }
Shaped == { m \in Models : Len(m.R) = Len(m.H) /\ m.dt = 1 + (m.A[1][1] % 2) }
Gains(m) == IF Len(m.H) = 1 THEN { <<<<a>>, <<b>>>> : a \in F, b \in F }
            ELSE { <<<<a, b>>, <<c, d>>>> : a \in F, b \in F, c \in F, d \in F }
Meas(m) == IF Len(m.H) = 1 THEN { <<<<a>>>> : a \in F } ELSE { <<<<a>>, <<1>>>> : a \in F }

After(e, u, z, K) ==
    LET xm == XPred(e.m, e.x, u)
        Pm == PPred(e.m, e.P)
    IN  [m |-> e.m, x |-> XCorr(e.m, xm, K, z), P |-> PCorr(e.m, Pm, K), K |-> K, t |-> FAdd(e.t, e.m.dt), n |-> e.n + 1]

Do(i) == \E u \in {<<<<0>>>>, <<<<1>>>>} : \E z \in Meas(est[i].m) : \E K \in Gains(est[i].m) :
            /\ est[i].n < MaxN
            /\ Regular(est[i].m, est[i].P)
            /\ Update(i, u, z, After(est[i], u, z, K))
MCInit == Init
MCNext == \/ 1 \notin DOMAIN est /\ \E m \in Shaped : \E P \in SymM : New(1, m, <<<<1>>, <<2>>>>, P)
          \/ 1 \in DOMAIN est /\ 2 \notin DOMAIN est /\ est[1].n > 0 /\ Copy(2, 1)
          \/ \E i \in DOMAIN est : Do(i)
MCSpec == MCInit /\ [][MCNext]_est

\* the gain equation has exactly one solution where the innovation covariance is regular
UniqueGain == \A i \in DOMAIN est : est[i].n < MaxN /\ Regular(est[i].m, est[i].P) =>
    Cardinality({ K \in Gains(est[i].m) : Gain(est[i].m, PPred(est[i].m, est[i].P), K) }) = 1
\* the short covariance update equals the symmetric (Joseph) form
Joseph == [][\A i \in DOMAIN est : i \in DOMAIN est' /\ est'[i].n = est[i].n + 1 => est'[i].P = JosephOf(est[i], est'[i])]_est
\* an update touches one estimator
Independent == [][Cardinality({ i \in DOMAIN est : est'[i] # est[i] }) <= 1]_est
\* the covariance and gain do not depend on the data
SameCov == \A i, j \in DOMAIN est : est[i].m = est[j].m /\ est[i].n = est[j].n => est[i].P = est[j].P /\ est[i].K = est[j].K
=============================================================================
