------------------------------ MODULE TwiTrace -----------------------------
(* Recorded calls of the two-wire functions: the events at the simulated bus *)
(* controller must be a behaviour of Twi; initialization programs exactly    *)
(* bit rate, prescaler, enable and pull-ups.                                 *)
EXTENDS Twi, Bitwise, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
\* register accesses are not events of the bus
Internal == {"twcr", "stat", "poll", "twdr"}
RECURSIVE Play(_, _, _)
Play(s, ev, k) == IF k > Len(ev) \/ s.pc = "bad" THEN s
                  ELSE Play(IF ev[k][1] \in Internal THEN s ELSE Trans(s, ev[k]), ev, k + 1)
Write(e) == /\ e.ok = 1
            /\ Play(Idle(e.a, e.b), Append(e.ev, <<"return", e.r>>), 1).pc \in {"succeeded", "reported"}
At(m, a) == m[a - 31]
InitDone(e) ==
    LET pre(a) == At(e.pre, a) post(a) == At(e.post, a) IN
    /\ e.ok = 1
    /\ post(\hb8) = e.br
    /\ post(\hb9) % 4 = e.ps
    /\ post(\hbc) & 4 = 4                                  \* enabled
    /\ (post(\hbc) & \h30) | (pre(\hbc) & \h30) = pre(\hbc) & \h30      \* no start or stop requested
    /\ post(\h28) = (pre(\h28) | \h30)                       \* pull-ups of SDA and SCL
    /\ \A a \in (\h20..\hff) \ {\hb8, \hb9, \hbc, \h28} : post(a) = pre(a)
Step(e) == CASE e.e = "twi" -> Write(e) [] e.e = "init" -> InitDone(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN d = Len(Trace) + 1 \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
