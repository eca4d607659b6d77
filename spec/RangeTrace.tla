------------------------------ MODULE RangeTrace ------------------------------
(* Iteration over ranges and indices as a machine: a cursor that stands at   *)
(* first + n step and is done when that is at or beyond the end in the       *)
(* direction of the step. Each recorded iteration is a run of the machine:   *)
(* "range" opens it, every "next" is the value the real iterator delivered,  *)
(* "done" the end it reported ("stop": the driver stopped looking).          *)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils
VARIABLES r, n, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* n steps from first; computed values may be rounded in the type of the range
Pos(k) == RAdd(r.first, RMul(k, r.step))
Eps(k) == RMul(RPow2(-r.bits), RAdd(RAbs(r.first), RMul(2, RAbs(RMul(k, r.step)))))
Beyond(v) == IF r.inf THEN FALSE ELSE IF RSign(r.step) > 0 THEN RLe(r.last, v) ELSE RLe(v, r.last)

Open(e) == /\ r' = [first |-> R(e.first), step |-> R(e.step), last |-> R(e.last), inf |-> e.inf, bits |-> e.bits] /\ n' = 0
\* the value delivered is the next one, and not beyond the end
Next(e) == /\ RLe(RAbs(RSub(e.v, Pos(n))), Eps(n))
           /\ ~Beyond(e.v)
           /\ n' = n + 1 /\ UNCHANGED r
\* the first e.n values at once: the last of them
Far(e) == /\ n = 0 /\ RLe(RAbs(RSub(e.v, Pos(e.n - 1))), Eps(e.n - 1)) /\ ~Beyond(e.v)
          /\ n' = e.n /\ UNCHANGED r
\* it ends only when the next value is beyond the end
Done(e) == /\ ~r.inf
           /\ Beyond(Pos(n)) \/ Beyond(RAdd(Pos(n), Eps(n))) \/ Beyond(RSub(Pos(n), Eps(n)))
           /\ UNCHANGED <<r, n>>
Stop(e) == UNCHANGED <<r, n>>
Step(e) == CASE e.ev = "session" -> Open(e)
             [] e.ev = "next"  -> Next(e)
             [] e.ev = "far"   -> Far(e)
             [] e.ev = "done"  -> Done(e)
             [] e.ev = "stop"  -> Stop(e)
             [] OTHER -> FALSE
TraceInit == l = 1 /\ n = 0 /\ r = [first |-> R(0), step |-> R(1), last |-> R(0), inf |-> FALSE, bits |-> 50]
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<r, n, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
