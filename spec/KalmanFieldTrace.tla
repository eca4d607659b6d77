-------------------------- MODULE KalmanFieldTrace --------------------------
(* Recorded histories of num::kalman<Fp,2,M,U>, Fp the field of 32749        *)
(* elements, must be behaviours of Kalman over that field, exactly.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
P_ == 32749
FAdd(a, b) == (a + b) % P_
FMul(a, b) == (a * b) % P_
FNeg(a) == (P_ - a) % P_
RECURSIVE FDotN(_, _, _)
FDotN(f, g, k) == IF k = 0 THEN 0 ELSE (FDotN(f, g, k - 1) + f[k] * g[k]) % P_
FDot(f, g) == FDotN(f, g, Len(f))
VARIABLES est, l
KF == INSTANCE Kalman WITH Zero <- 0, One <- 1, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot
LA == INSTANCE LinAlg WITH Zero <- 0, One <- 1, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot
WHAT == IOEnv.WHAT            \* "step": everything; "obs": time, observers and instances only
Trace == ndJsonDeserialize(IOEnv.TRACE)

Shown(e, s) == s.x = e.x /\ s.P = e.P /\ s.t = e.t /\ ("K" \in DOMAIN e => s.K = e.K)
Model(e) == [A |-> e.A, B |-> e.B, H |-> e.H, Q |-> e.Q, R |-> e.R, dt |-> e.dt]
After(e, n) == [m |-> est[e.id].m, x |-> e.x, P |-> e.P, K |-> e.K, t |-> e.t, n |-> n]

\* Where the innovation covariance has no inverse the recursion prescribes nothing
\* but the time, and what it leaves as P need no longer be a covariance.
Unconstrained(e) == ~KF!Regular(est[e.id].m, est[e.id].P) \/ ~LA!Symmetric(est[e.id].P)

Step(e) ==
    CASE e.ev = "session" -> est' = <<>>
      [] e.ev = "new"  -> KF!New(e.id, Model(e), e.x0, e.P0) /\ Shown(e, est'[e.id])
      [] e.ev = "copy" -> KF!Copy(e.id, e.from) /\ Shown(e, est'[e.id])
      [] e.ev = "obs"  -> KF!Observe(e.id) /\ Shown(e, est[e.id])
      [] e.ev = "same" -> est[e.id] = est[e.of] /\ UNCHANGED est
      [] e.ev = "upd"  ->
            /\ e.ua = e.u /\ e.za = e.z                      \* arguments are not modified
            /\ IF WHAT = "obs" \/ Unconstrained(e)
               THEN /\ e.t = FAdd(est[e.id].t, est[e.id].m.dt)
                    /\ est' = [est EXCEPT ![e.id] = After(e, est[e.id].n + 1)]
               ELSE KF!Update(e.id, e.u, e.z, After(e, est[e.id].n + 1))
      [] e.ev = "jump" -> /\ e.t = FAdd(est[e.id].t, FMul(e.n % P_, est[e.id].m.dt))
                          /\ est' = [est EXCEPT ![e.id] = After(e, est[e.id].n + e.n)]
      [] OTHER -> FALSE

TraceInit == l = 1 /\ KF!Init
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<est, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
