-------------------------------- MODULE Twi --------------------------------
(* Two-wire interface: one byte written by a master, polling. The machine    *)
(* advances on what is visible on the bus controller: steps requested by the *)
(* software (start, send, stop), completion reported by the hardware with a  *)
(* status code (data sheet, table of status codes for master transmitter),   *)
(* and the return of the function.                                           *)
EXTENDS Integers, Sequences, FiniteSets
Started == 8        \* a START condition has been transmitted
AddressAck == 24    \* SLA+W has been transmitted, ACK received
DataAck == 40       \* data byte has been transmitted, ACK received
Code(st) == (st \div 8) * 8
Expect == [start |-> Started, address |-> AddressAck, data |-> DataAck]
Idle(a, b) == [pc |-> "idle", a |-> a, b |-> b]
Bad == [pc |-> "bad", a |-> 0, b |-> 0]
\* states: idle; start, address, data: step requested, waiting; X-done: completed as expected
\* failed: completed with another status; stopped: transaction complete
Trans(s, ev) ==
    CASE ev[1] = "start" -> IF s.pc = "idle" THEN [s EXCEPT !.pc = "start"] ELSE Bad
      [] ev[1] = "send" -> IF s.pc = "start-done" /\ ev[2] = s.a THEN [s EXCEPT !.pc = "address"]
                           ELSE IF s.pc = "address-done" /\ ev[2] = s.b THEN [s EXCEPT !.pc = "data"] ELSE Bad
      [] ev[1] = "stop" -> IF s.pc = "data-done" THEN [s EXCEPT !.pc = "stopped"] ELSE Bad
      [] ev[1] = "done" -> IF s.pc \in DOMAIN Expect
                           THEN [s EXCEPT !.pc = IF Code(ev[2]) = Expect[s.pc] THEN s.pc \o "-done" ELSE "failed"]
                           ELSE Bad
      [] ev[1] = "return" -> IF s.pc = "stopped" /\ ev[2] = 0 THEN [s EXCEPT !.pc = "succeeded"]
                             ELSE IF s.pc = "failed" /\ ev[2] # 0 THEN [s EXCEPT !.pc = "reported"] ELSE Bad
      [] OTHER -> Bad
=============================================================================
