----------------------------- MODULE FilterTrace -----------------------------
(* Recorded histories of biquad and one-pole sections and of biquad          *)
(* cascades over the field of PRIME elements or (PRIME = 0) in arithmetic    *)
(* that is exact for the values used: outputs are those of the difference    *)
(* equation for the whole history; coefficients and observable state are     *)
(* moved, kept and cleared exactly as the specification moves sections.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Rat
VARIABLES sec, cas, l
P_ == atoi(IOEnv.PRIME)
N(x) == IF P_ = 0 THEN R(x) ELSE x % P_
QAdd(a, b) == IF P_ = 0 THEN RAdd(a, b) ELSE (a + b) % P_
QMul(a, b) == IF P_ = 0 THEN RMul(a, b) ELSE (a * b) % P_
QNeg(a) == IF P_ = 0 THEN RNeg(a) ELSE (-a) % P_
RECURSIVE QDotN(_, _, _)
QDotN(f, g, k) == IF k = 0 THEN 0 ELSE (QDotN(f, g, k - 1) + f[k] * g[k]) % P_
QDot(f, g) == IF P_ = 0 THEN RDot(f, g) ELSE QDotN(f, g, Len(f))
Z == N(0)
F == INSTANCE Filter WITH Zero <- Z, Add <- QAdd, Mul <- QMul, Neg <- QNeg, Dot <- QDot
Trace == ndJsonDeserialize(IOEnv.TRACE)

Ns(s) == [k \in 1..Len(s) |-> N(s[k])]
Zeros(s) == \A k \in 1..Len(s) : N(s[k]) = Z
\* a section of the model: the specified one, and the delay line last observed
Mk(b, a, w) == [s |-> F!Fresh(Ns(b), Ns(a)), w |-> w]
Obs(o, m) == Ns(o.b) = m.s.b /\ Ns(o.a) = m.s.a /\ o.w = m.w
SameCoeffs(o, m) == Ns(o.b) = m.s.b /\ Ns(o.a) = m.s.a
\* constructed and fed px before use
Made(o) == [s |-> F!FedAll(F!Fresh(Ns(o.b), Ns(o.a)), Ns(o.px), Len(o.px)), w |-> o.w]
MadeOk(o) == Zeros(o.w0) /\ Ns(o.py) = F!Outs(F!Fresh(Ns(o.b), Ns(o.a)), Ns(o.px), 1)

---------------------------------------------------------------------------
SecStep(e) ==
    CASE e.ev = "new"  -> Zeros(e.o.w) /\ sec' = (e.id :> Mk(e.b, e.a, e.o.w)) @@ sec /\ Obs(e.o, sec'[e.id])
      [] e.ev = "run"  -> /\ Ns(e.y) = F!Outs(sec[e.id].s, Ns(e.x), 1)
                          /\ SameCoeffs(e.o, sec[e.id])
                          /\ sec' = [sec EXCEPT ![e.id] = [s |-> F!FedAll(@.s, Ns(e.x), Len(e.x)), w |-> e.o.w]]
      [] e.ev = "reset" -> /\ Zeros(e.o.w) /\ SameCoeffs(e.o, sec[e.id])
                           /\ sec' = [sec EXCEPT ![e.id] = [s |-> F!Cleared(@.s), w |-> e.o.w]]
      [] e.ev = "copy" -> sec' = (e.id :> sec[e.from]) @@ sec /\ Obs(e.o, sec[e.from])
      [] e.ev = "swap" -> /\ sec' = [sec EXCEPT ![e.id] = sec[e.with], ![e.with] = sec[e.id]]
                          /\ Obs(e.o, sec'[e.id]) /\ Obs(e.p, sec'[e.with])
      [] e.ev = "obs"  -> Obs(e.o, sec[e.id]) /\ UNCHANGED sec

---------------------------------------------------------------------------
Specs(c) == [k \in 1..Len(c) |-> c[k].s]
Shown(v, c) == /\ v.size = Len(c) /\ v.res = v.cap
               /\ \A p \in {"at", "iter", "citer"} : Len(v[p]) = Len(c) /\ \A k \in 1..Len(c) : Obs(v[p][k], c[k])
\* after filtering: delay lines as observed (the same by every access path), coefficients kept
Taken(v, specs) == [k \in 1..Len(specs) |-> [s |-> specs[k], w |-> v.at[k].w]]
Cas(e) ==
    LET c == cas[1]
        \* the section taken in: a new one, or a copy of one that is in the cascade
        new == IF "own" \in DOMAIN e THEN c[e.own + 1] ELSE Made(e.n)
        newOk == IF "own" \in DOMAIN e THEN TRUE ELSE MadeOk(e.n)
    IN  CASE e.op = "append"  -> newOk /\ cas' = <<Append(c, new), cas[2]>> /\ Len(c) < e.v.cap
          [] e.op = "insert"  -> newOk /\ cas' = <<F!Inserted(c, e.i, new), cas[2]>>
          [] e.op = "remove"  -> cas' = <<F!Removed(c, e.i), cas[2]>>
          [] e.op = "replace" -> /\ newOk /\ cas' = <<F!Replaced(c, e.i, new), cas[2]>>
                                 /\ Obs(e.ret, c[e.i + 1])
                                 /\ Ns(e.ry) = F!Outs(c[e.i + 1].s, Ns(e.rx), 1)          \* and it still filters
          [] e.op = "clear"   -> cas' = <<<<>>, cas[2]>>
          [] e.op = "step"    -> /\ N(e.y) = F!COut(Specs(c), N(e.x))
                                 /\ e.v.size = Len(c) /\ Len(e.v.at) = Len(c)
                                 /\ cas' = <<Taken(e.v, F!CFed(Specs(c), N(e.x))), cas[2]>>
          [] e.op = "reset"   -> /\ e.v.size = Len(c) /\ Len(e.v.at) = Len(c) /\ \A k \in 1..Len(c) : Zeros(e.v.at[k].w)
                                 /\ cas' = <<Taken(e.v, F!CCleared(Specs(c))), cas[2]>>
          [] e.op = "copy"    -> cas' = <<c, c>>
          [] e.op = "exchange" -> cas' = <<cas[2], c>>
          [] e.op = "look"    -> cas' = cas
          [] e.op = "appends" -> /\ \A k \in 1..Len(e.ns) : MadeOk(e.ns[k])
                                 /\ cas' = <<c \o [k \in 1..Len(e.ns) |-> Made(e.ns[k])], cas[2]>> /\ Len(c) + Len(e.ns) <= e.v.cap
          [] e.op = "make"    -> /\ \A k \in 1..Len(e.ns) : MadeOk(e.ns[k])
                                 /\ cas' = <<[k \in 1..Len(e.ns) |-> Made(e.ns[k])], cas[2]>>
CasStep(e) == /\ Cas(e) /\ Shown(e.v, cas'[1])
              /\ ("other" \in DOMAIN e => Shown(e.other, cas'[2]))

---------------------------------------------------------------------------
Step(e) ==
    CASE e.ev = "session" -> sec' = <<>> /\ cas' = <<<<>>, <<>>>>
      [] e.ev \in {"new", "run", "reset", "copy", "swap", "obs"} -> SecStep(e) /\ UNCHANGED cas
      [] e.ev = "cas" -> CasStep(e) /\ UNCHANGED sec
      [] e.ev = "lasting" -> e.differ = <<>> /\ UNCHANGED <<sec, cas>>      \* sections stepped one by one give the same
      [] OTHER -> FALSE
TraceInit == l = 1 /\ sec = <<>> /\ cas = <<<<>>, <<>>>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<sec, cas, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
