-------------------------- MODULE KalmanRealTrace ---------------------------
(* Recorded histories of num::kalman<double or float,2,M,U>. Every update is *)
(* recomputed in exact rational arithmetic from the observed state before it *)
(* and the observed state after it must agree up to rounding: within         *)
(* 2^-TOL of the same formula evaluated with absolute values (so that        *)
(* cancellation is accounted for and any order of evaluation is accepted).   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Rat
VARIABLES est, l
K == INSTANCE Kalman WITH Zero <- R(0), One <- R(1), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
M == INSTANCE LinAlg WITH Zero <- R(0), One <- R(1), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
Trace == ndJsonDeserialize(IOEnv.TRACE)
TOL   == atoi(IOEnv.TOL)      \* unit roundoff of the type with some slack
COND  == atoi(IOEnv.COND)     \* steps worse conditioned than 2^COND prescribe no digits
ETA   == RPow2(atoi(IOEnv.ETA) + TOL)  \* underflow of the type, weighted like a magnitude
WHAT  == IOEnv.WHAT           \* "step": the recursion; "cov": validity of the covariance; "timed", "held": the
                              \* recursion of the timing program, which keeps no time, and may hold the gain

Exact(X) == M!MatMap(X, R)
Abs(X)   == M!MatMap(X, RAbs)
Near(X, Y, G) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : RNear(X[i][j], Y[i][j], TOL, G[i][j])
Fin(X) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : RFin(X[i][j])

Shown(e, s) == s.x = e.x /\ s.P = e.P /\ s.t = e.t /\ ("K" \in DOMAIN e => s.K = e.K)
Model(e) == [A |-> Exact(e.A), B |-> Exact(e.B), H |-> Exact(e.H), Q |-> Exact(e.Q), R |-> Exact(e.R), dt |-> R(e.dt)]
\* the state of an estimator is kept as observed
After(e, n, m) == [m |-> m, x |-> e.x, P |-> e.P, K |-> IF "K" \in DOMAIN e THEN e.K ELSE <<>>, t |-> e.t, n |-> n]

Permanent(X) == IF Len(X) = 1 THEN X[1][1] ELSE RAdd(RMul(X[1][1], X[2][2]), RMul(X[1][2], X[2][1]))

\* Magnitudes: the same formulas over absolute values, rounded up.
MUp(X) == M!MatMap(X, RUp)
MEta(X) == LET Up(v) == RUp(RAdd(v, ETA)) IN M!MatMap(X, Up)
\* The recursion presumes a symmetric covariance; rounding leaves it symmetric only
\* up to some last digits, and an implementation may use either off-diagonal entry.
PUp(P) == LET s == RMul(RPow2(TOL), RAbs(RSub(P[1][2], P[2][1]))) IN MUp(M!MatShift(MUp(P), s))

\* An exact step, multiplied by d = det(S) to stay among dyadic rationals, and
\* magnitudes of everything that enters it.
Exactly(m, x, P, u, z) ==
    LET xm == K!XPred(m, x, u)
        Pm == K!PPred(m, P)
        S  == K!Innov(m, Pm)
        d  == M!Det(S)
        a  == TLCEval([A |-> MUp(m.A), B |-> MUp(m.B), H |-> MUp(m.H), Q |-> MUp(m.Q), R |-> MUp(m.R)])
        gx == MEta(K!XPred(a, MUp(x), MUp(u)))
        gP == MEta(K!PPred(a, PUp(P)))
        gS == MEta(K!Innov(a, gP))
        gd == Permanent(gS)
        di == RUp(RDiv(1, d))
        c  == RMul(gd, di)                                  \* condition of the inversion
        gSi == MUp(M!MatScale(M!MatMap(M!Adjugate(gS), RAbs), RMul(di, RAdd(1, c))))
        dK == M!MatMul(M!MatMul(Pm, M!Transpose(m.H)), M!Adjugate(S))
        gK == MEta(M!MatMul(M!MatMul(gP, M!Transpose(a.H)), gSi))
        L  == MUp(M!MatAdd(M!Ident(2), M!MatMul(gK, a.H)))
    IN  TLCEval([
         d |-> d, regular |-> RLt(0, RAbs(d)) /\ RLe(c, RPow2(COND)),
         dK |-> dK,
         dx |-> M!MatAdd(M!MatScale(xm, d), M!MatMul(dK, M!MatSub(z, M!MatMul(m.H, xm)))),
         dP |-> M!MatSub(M!MatScale(Pm, d), M!MatMul(M!MatMul(dK, m.H), Pm)),
         gK |-> M!MatScale(gK, RUp(d)),
         gx |-> M!MatScale(MEta(M!MatAdd(gx, M!MatMul(gK, M!MatAdd(MUp(z), M!MatMul(a.H, gx))))), RUp(d)),
         gP |-> M!MatScale(MEta(M!MatAdd(M!MatMul(M!MatMul(L, gP), M!Transpose(L)), M!MatMul(M!MatMul(gK, a.R), M!Transpose(gK)))), RUp(d))])

StepOk(s, e) ==
    LET m == s.m
        y == Exactly(m, Exact(s.x), Exact(s.P), Exact(e.u), Exact(e.z))
    IN  (Fin(s.x) /\ Fin(s.P) /\ y.regular) =>
            /\ Near(M!MatScale(e.K, y.d), y.dK, y.gK)
            /\ Near(M!MatScale(e.x, y.d), y.dx, y.gx)
            /\ Near(M!MatScale(e.P, y.d), y.dP, y.gP)

\* with the gain held the state follows it, and gain and covariance stay
HeldOk(s, e) ==
    LET xm == K!XPred(s.m, Exact(s.x), Exact(e.u))
        a  == [A |-> Abs(s.m.A), B |-> Abs(s.m.B), H |-> Abs(s.m.H)]
        gx == K!XPred(a, Abs(Exact(s.x)), Abs(Exact(e.u)))
        k  == Exact(e.K)
    IN  /\ e.P = s.P /\ (s.K # <<>> => e.K = s.K)
        /\ Fin(s.x) /\ Fin(e.K) =>
              Near(e.x, M!MatAdd(xm, M!MatMul(k, M!MatSub(Exact(e.z), M!MatMul(s.m.H, xm)))),
                   MEta(M!MatAdd(gx, M!MatMul(Abs(k), M!MatAdd(Abs(Exact(e.z)), M!MatMul(a.H, gx))))))

\* positive semi-definite up to eps
Psd(X, eps) == /\ RLe(RNeg(eps), X[1][1]) /\ RLe(RNeg(eps), X[2][2])
               /\ LET o == RDiv(RAdd(X[1][2], X[2][1]), 2)
                      s == RAdd(RAdd(RAbs(X[1][1]), RAbs(X[2][2])), eps)
                  IN  RLe(RNeg(RMul(eps, s)), RSub(RMul(X[1][1], X[2][2]), RMul(o, o)))
\* how far a covariance already is from being symmetric and positive semi-definite
Off(X) == LET o == RDiv(RAdd(X[1][2], X[2][1]), 2)
              d == RSub(RMul(X[1][1], X[2][2]), RMul(o, o))
              t == RAdd(X[1][1], X[2][2])
          IN  RAdd(RAbs(RSub(X[1][2], X[2][1])),
                   IF RLe(0, X[1][1]) /\ RLe(0, X[2][2]) /\ RLe(0, d) THEN 0
                   ELSE IF RLt(0, t) /\ RLt(d, 0) THEN RDiv(RAbs(d), t)
                   ELSE RAdd(RAdd(RAbs(X[1][1]), RAbs(X[2][2])), RAbs(o)))
MaxAbs(X) == LET a == M!MatMap(X, RAbs) IN RMax(RMax(a[1][1], a[2][2]), RMax(a[1][2], a[2][1]))
CovOk(s, e) ==
    LET m == s.m
        P == Exact(s.P)
        Pm == K!PPred(m, P)
        S  == K!Innov(m, Pm)
        a  == TLCEval([A |-> MUp(m.A), H |-> MUp(m.H), Q |-> MUp(m.Q), R |-> MUp(m.R)])
        c  == RUp(RDiv(Permanent(K!Innov(a, K!PPred(a, Abs(P)))), RAbs(M!Det(S))))
        N == Exact(e.P)
        \* what the covariance before the update lacks, carried through it: (I - K H) A D A' (I - K H)'
        L == M!MatSub(M!Ident(2), M!MatMul(M!MatMul(M!MatMul(Pm, M!Transpose(m.H)), M!MatScale(M!Adjugate(S), RDiv(1, M!Det(S)))), m.H))
        G == MUp(M!MatMul(M!MatMap(L, RAbs), a.A))
        amp == RAdd(RAdd(G[1][1], G[1][2]), RAdd(G[2][1], G[2][2]))
        off == RUp(Off(P))
        eps == RAdd(RMul(RPow2(-(TOL - 4)), RMul(RAdd(1, c), RAdd(RAdd(RAdd(MaxAbs(Pm), MaxAbs(P)), MaxAbs(N)), ETA))),
                    RMul(RMul(2, off), RAdd(MaxAbs(M!MatMul(a.A, M!Transpose(a.A))), RMul(amp, amp))))
    IN  (Fin(s.P) /\ RLt(0, M!Det(S)) /\ RLe(0, S[1][1]) /\ RLe(c, RPow2(COND))) =>
            /\ Fin(e.P)
            /\ RLe(RAbs(RSub(N[1][2], N[2][1])), eps)
            /\ Psd(N, eps)
            /\ Psd(M!MatSub(Pm, N), eps)

TimeOk(s, e, n) == \* k steps of dt, up to rounding of each addition
    LET k == s.n + n
        T == RMul(k, s.m.dt)
    IN  IF RIsInt(RMul(s.m.dt, 65536)) /\ RLe(RMul(RAbs(T), 65536), RPow2(TOL + 8))
        THEN REq(e.t, T)                    \* every partial sum is representable
        ELSE RLe(RAbs(RSub(e.t, T)), RMul(RPow2(-TOL), RMul(k, RAbs(T))))

Step(e) ==
    CASE e.ev = "session" -> est' = <<>>
      [] e.ev = "new"  -> /\ est' = (e.id :> After(e, 0, Model(e))) @@ est
                          /\ e.x = e.x0 /\ e.P = e.P0 /\ REq(e.t, 0)
      [] e.ev = "copy" -> est' = (e.id :> est[e.from]) @@ est /\ Shown(e, est'[e.id])
      [] e.ev = "obs"  -> Shown(e, est[e.id]) /\ UNCHANGED est
      [] e.ev = "same" -> est[e.id] = est[e.of] /\ UNCHANGED est
      [] e.ev = "cov"  -> \* same model and initial covariance, other data: same covariance and gain
                          /\ est[e.id].K = est[e.of].K /\ est[e.id].P = est[e.of].P /\ UNCHANGED est
      [] e.ev = "steady" -> \* a further update no longer changes the covariance
                          /\ LET P == Exact(est[e.id].P)
                                 Pm == K!PPred(est[e.id].m, P)
                                 y == Exactly(est[e.id].m, Exact(est[e.id].x), P, M!Const(Len(est[e.id].m.B[1]), 1, R(0)), M!Const(Len(est[e.id].m.H), 1, R(0)))
                             IN  \A i \in 1..2 : \A j \in 1..2 : RNear(y.dP[i][j], RMul(P[i][j], y.d), TOL - 12, MaxAbs(y.gP))
                          /\ UNCHANGED est
      [] e.ev = "near" -> \* two histories of the same stable model end with the same covariance
                          /\ LET P == Exact(est[e.id].P)
                                 Q == Exact(est[e.of].P)
                                 s == TLCEval(RMul(RPow2(-(TOL \div 2)), RAdd(RAdd(MaxAbs(P), MaxAbs(Q)), RAdd(MaxAbs(est[e.id].m.Q), ETA))))
                             IN  \A i \in 1..2 : \A j \in 1..2 : RLe(RAbs(RSub(P[i][j], Q[i][j])), s)
                          /\ UNCHANGED est
      [] e.ev = "upd"  -> /\ e.ua = e.u /\ e.za = e.z
                          /\ (WHAT \in {"timed", "held"} \/ TimeOk(est[e.id], e, 1))
                          /\ (WHAT \in {"step", "timed"} => StepOk(est[e.id], e))
                          /\ (WHAT = "held" => HeldOk(est[e.id], e))
                          /\ (WHAT = "cov" => CovOk(est[e.id], e))
                          /\ est' = [est EXCEPT ![e.id] = After(e, est[e.id].n + 1, est[e.id].m)]
      [] e.ev = "jump" -> /\ TimeOk(est[e.id], e, e.n)
                          /\ est' = [est EXCEPT ![e.id] = After(e, est[e.id].n + e.n, est[e.id].m)]
      [] OTHER -> FALSE

TraceInit == l = 1 /\ est = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<est, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
