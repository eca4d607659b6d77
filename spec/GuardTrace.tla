------------------------------ MODULE GuardTrace ------------------------------
(* Bounds as a machine: a cascade of capacity cap holding size sections can  *)
(* take exactly the requests that Enabled allows; any other request must be  *)
(* stopped (assertion, exception) before it touches anything outside. The    *)
(* driver asks "what if" in every state of random edit histories (attempt,   *)
(* in a process of its own) and then takes an enabled step (edit). Likewise  *)
(* for Chebyshev designs and cascades made from them.                        *)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils
VARIABLES cap, size, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Held(i) == 0 <= i /\ i < size
Enabled(op, i) == CASE op = "append" -> size < cap
                    [] op = "insert" -> Held(i) /\ size < cap
                    [] op = "clear"  -> TRUE
                    [] OTHER -> Held(i)
\* appending by insert: stopped today, could as well be offered
Open(op, i) == op = "insert" /\ i = size /\ size < cap
After(op) == CASE op \in {"append", "insert"} -> size + 1
               [] op = "remove" -> size - 1
               [] op = "clear"  -> 0
               [] OTHER -> size
New(e) == e.size = 0 /\ cap' = e.cap /\ size' = 0
Attempt(e) == /\ e.result # "harm"
              /\ Open(e.op, e.i) \/ e.result = (IF Enabled(e.op, e.i) THEN "done" ELSE "stopped")
              /\ UNCHANGED <<cap, size>>
Edit(e) == /\ Enabled(e.op, e.i) /\ e.intact
           /\ size' = After(e.op) /\ e.size = size' /\ UNCHANGED cap
Half(fs) == RDiv(fs, 2)
Designable(e) == /\ e.kind \in {"low", "high"}
                 /\ RLt(R(e.fpass), Half(R(e.fs))) /\ RLt(R(e.fstop), Half(R(e.fs)))
Design(e) == e.result = (IF Designable(e) THEN "done" ELSE "stopped") /\ UNCHANGED <<cap, size>>
Made(e) == e.result = (IF e.n <= e.cap THEN "done" ELSE "stopped") /\ UNCHANGED <<cap, size>>
Step(e) == CASE e.ev = "new" -> New(e)
             [] e.ev = "attempt" -> Attempt(e)
             [] e.ev = "edit" -> Edit(e)
             [] e.ev = "design" -> Design(e)
             [] e.ev = "sections" -> Made(e)
             [] OTHER -> FALSE
TraceInit == cap = 0 /\ size = 0 /\ l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cap, size, l>>
Bounded == 0 <= size /\ size <= cap
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
