----------------------------- MODULE ProgTrace ------------------------------
(* Executions of the AVR programs in the instruction simulator: hardware     *)
(* events delivered at arbitrary instructions, stores to I/O registers, and  *)
(* times at which nothing happened. Internal steps are left to TLC.          *)
EXTENDS Programs, TLC, Json, IOUtils
VARIABLES l, s
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* known finding: the heartbeat of these programs counts 251 timer steps, not 250; any other period is still rejected
Slow(x) == x.prog \in {"blinkisr", "dac"} /\ x.pc = "init" /\ x.reg.OCR0A = 250 /\ Prescale(x.reg) = 64
SlowBeat(x) == LET y == Enable([x EXCEPT !.reg.OCR0A = 249]) IN IF y # {} /\ PrintT(<<"KNOWN", "heartbeat-251-steps">>) THEN y ELSE y
Obs(e) ==
    CASE e.ev = "session" -> {[Start(e.prog) EXCEPT !.smp = <<e.lo, e.hi>>]}
      [] e.ev = "w" -> \* between two toggles of the timing program lies the work of one estimator update
                       IF s.prog = "time" /\ s.pc = "run" /\ ~(s.smp[1] <= e.dt /\ e.dt <= s.smp[2]) THEN {} ELSE Write(s, e.r, e.v)
      [] e.ev = "on" -> IF Slow(s) THEN SlowBeat(s) ELSE Enable(s)
      [] e.ev = "tick" -> Tick(s)
      [] e.ev = "adc" -> Converted(s, e.v)
      [] e.ev = "pin" -> Pin(s, e.v)
      [] e.ev = "idle" -> IF Settled(s) THEN {s} ELSE {}
      [] e.ev = "end" -> \* it came as far as the session asks for
                         IF e.halted = (s.prog = "none") /\ s.pc # (IF s.prog = "none" THEN "x" ELSE "init") THEN {s} ELSE {}
      [] OTHER -> {}
TraceInit == l = 1 /\ s = Start("none") /\ TLCSet(1, 0)
Observe == /\ l <= Len(Trace) /\ s' \in Obs(Trace[l]) /\ l' = l + 1
           /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Internal == l <= Len(Trace) /\ s' \in Steps(s) /\ l' = l
TraceNext == Observe \/ Internal
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s>>
TraceAccepted == TLCGet(1) = Len(Trace) \/ (PrintT(<<"REJECT", TLCGet(1) + 1, Trace[TLCGet(1) + 1]>>) /\ FALSE)
=============================================================================
