------------------------------- MODULE TwiMC -------------------------------
(* The polling driver, as written in terms of its control register, composed *)
(* with a bus controller that completes each requested step after any delay  *)
(* with any status; every behaviour is one of the machine of Twi. Checked    *)
(* exhaustively; UNSAFE names a driver variant, each of which must fail.     *)
EXTENDS Twi, TLC
CONSTANTS Bytes, Statuses, UNSAFE
VARIABLES pc, int, busy, reg, dr, m, log, bus
\* driver location, TWINT, step in progress, TWSR, TWDR, protocol machine, bus log, what is on the wire
vars == <<pc, int, busy, reg, dr, m, log, bus>>
Init == /\ pc = "start" /\ int \in {0, 1} /\ busy = FALSE /\ reg \in Statuses /\ dr \in Bytes
        /\ \E a, b \in Bytes : m = Idle(a, b)
        /\ log = <<>> /\ bus = "free"
Obs(ev) == m' = Trans(m, ev) /\ log' = Append(log, ev[1])
Request(ev, next) == /\ Obs(ev) /\ int' = 0 /\ busy' = TRUE /\ pc' = next
Start == /\ pc = "start" /\ Request(<<"start">>, "wait-start") /\ bus' = "start" /\ UNCHANGED <<reg, dr>>
Send(x, at, next) == /\ pc = at /\ dr' = x /\ Request(<<"send", x>>, next) /\ bus' = <<"byte", x>> /\ UNCHANGED reg
Stop == /\ pc = "stop" /\ Obs(<<"stop">>) /\ int' = 0 /\ busy' = FALSE /\ pc' = "ok" /\ bus' = "free" /\ UNCHANGED <<reg, dr>>
\* wait until the hardware reports completion, then compare the status
Wait(at, want, next) == /\ pc = at /\ (int = 1 \/ UNSAFE = "no-wait")
                        /\ pc' = IF Code(reg) = want \/ UNSAFE = "no-status" THEN next ELSE "error"
                        /\ UNCHANGED <<int, busy, reg, dr, m, log, bus>>
Complete == /\ busy /\ busy' = FALSE /\ int' = 1 /\ reg' \in Statuses /\ Obs(<<"done", reg'>>) /\ UNCHANGED <<pc, dr, bus>>
Return == \/ pc = "ok" /\ pc' = "returned" /\ Obs(<<"return", 0>>) /\ UNCHANGED <<int, busy, reg, dr, bus>>
          \/ pc = "error" /\ pc' = "returned" /\ Obs(<<"return", 1>>) /\ UNCHANGED <<int, busy, reg, dr, bus>>
Second == IF UNSAFE = "address-twice" THEN m.a ELSE m.b
Next == \/ Start \/ Wait("wait-start", Started, "address") \/ Send(m.a, "address", "wait-address") \/ Wait("wait-address", AddressAck, "data")
        \/ Send(Second, "data", "wait-data") \/ Wait("wait-data", DataAck, "stop") \/ Stop \/ Complete \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ WF_vars(Complete)
NeverBad == m.pc # "bad"
Success == (pc = "returned" /\ m.pc = "succeeded") => log = <<"start", "done", "send", "done", "send", "done", "stop", "return">>
Outcome == pc = "returned" => m.pc \in {"succeeded", "reported"}
Terminates == <>(pc = "returned")
=============================================================================
