---------------------------- MODULE AtomicTrace ----------------------------
(* One access of main code to a multi-byte value, with an interrupt service  *)
(* routine that reads or replaces the whole value, arriving at a given       *)
(* instruction. The recorded events drive the byte memory of the model; the  *)
(* outcome must be that of some order of the two as indivisible steps.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
\* run the events: mem is the value, I the interrupt enable flag
S0(e) == [mem |-> e.old, i |-> 1, in |-> FALSE, seen |-> <<>>, put |-> <<>>, reads |-> {}, writes |-> {}, irqAt |-> 0, ok |-> TRUE]
RECURSIVE Play(_, _, _)
Play(s, e, k) ==
    IF k > Len(e.ev) THEN s
    ELSE LET x == e.ev[k] IN Play(
        CASE x[1] = "I" -> [s EXCEPT !.i = x[3][1]]
          [] x[1] = "r" -> [s EXCEPT !.ok = @ /\ x[3][1] = s.mem[x[2] + 1], !.reads = @ \cup {k}]
          [] x[1] = "w" -> [s EXCEPT !.mem[x[2] + 1] = x[3][1], !.writes = @ \cup {k}]
          [] x[1] = "irq" -> [s EXCEPT !.ok = @ /\ s.i = 1, !.in = TRUE, !.irqAt = k]
          [] x[1] = "saw" -> [s EXCEPT !.ok = @ /\ x[3] = s.mem, !.seen = <<x[3]>>]
          [] x[1] = "put" -> [s EXCEPT !.mem = x[3], !.put = <<x[3]>>]
          [] x[1] = "reti" -> [s EXCEPT !.in = FALSE, !.i = 1], e, k + 1)
\* on the timer's output compare register the two bytes are written high first,
\* and the low byte's store completes the access
HwPlayed(e, s) == [s EXCEPT !.mem = e.end]
Atomic(e) ==
    LET s == Play(S0(e), e, 1)
        hw == e.n = "awrite_hw"
        new == IF e.n = "awrite_w16" THEN <<e.arg[1], 0>> ELSE e.arg
    IN /\ e.iend = 1                                              \* interrupts are enabled again
       /\ hw \/ s.ok
       /\ hw \/ s.mem = e.end
       /\ e.size > 1 => /\ s.writes \cup s.reads # {}
       \* the value the service routine saw is whole
       /\ s.seen # <<>> => s.seen[1] \in (IF e.o = "w" THEN {e.old, new} ELSE {e.old})
       \* what main read is whole: the value before or after the service routine's
       /\ e.o = "r" => /\ e.ret \in {e.old} \cup {s.put[i] : i \in DOMAIN s.put}
                       /\ e.end = (IF s.put = <<>> THEN e.old ELSE s.put[1])
       \* what main wrote is whole, and survives unless the service routine came later
       /\ e.o = "w" => \/ e.end = new /\ (s.put # <<>> => s.seen[1] = e.old)
                       \/ s.put # <<>> /\ e.end = s.put[1] /\ s.seen[1] = new
\* interrupts are disabled at exactly the marked points inside the scope of a guard
Inside(n) == CASE n = "guard" -> {2, 3, 4} [] n = "guard_return" -> {2, 3} [] n = "guard_call" -> {2, 3, 4}
Guard(e) == /\ e.iend = 1
            /\ \A i \in DOMAIN e.m : e.m[i][2] = (IF e.m[i][1] \in Inside(e.n) THEN 0 ELSE 1)
            /\ CASE e.n = "guard" -> [i \in DOMAIN e.m |-> e.m[i][1]] = <<1, 2>> \o [i \in 1..e.a |-> 3] \o <<4, 5, 6>>
                 [] e.n = "guard_call" -> [i \in DOMAIN e.m |-> e.m[i][1]] = <<1, 3>> \o (IF e.a = 0 THEN <<>> ELSE <<4>>) \o <<2, 5>>
                 [] e.n = "guard_return" -> IF e.a < 3 THEN e.r = e.a /\ Len(e.m) = 2 + 2 * e.a ELSE e.r = 7 /\ Len(e.m) = 8
Step(e) == CASE e.e = "atomic" -> Atomic(e) [] e.e = "guard" -> Guard(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN d = Len(Trace) + 1 \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
