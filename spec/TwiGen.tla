------------------------------- MODULE TwiGen ------------------------------
(* Scripts for the simulated bus controller: for each step the status it     *)
(* reports and after how many polls. All status codes at the first, second   *)
(* and third step, all addresses and data bytes, short and long delays.      *)
EXTENDS Twi, TLC, IOUtils
VARIABLES x
DEEP == IOEnv.DEEP = "1"
Codes == {8 * k : k \in 0..31}
Delays == <<0, 1, 2, 3, 5, 11, 64, 700, 3000>>
D(k) == Delays[1 + (k % (IF k % 29 = 0 THEN 9 ELSE 7))]
Good == <<Started, AddressAck, DataAck>>
\* status of step i of a script that departs from the good one at step f with code c, and reports o later
Stat(i, f, c, o) == IF i < f THEN Good[i] ELSE IF i = f THEN c ELSE o
Pairs == {<<a, (a * 37 + 101) % 256>> : a \in 0..255} \cup {<<a, b>> : a \in {0, 1, 120, 255}, b \in (IF DEEP THEN 0..255 ELSE {k * 5 : k \in 0..51})}
Fails == {<<f, c, o>> : f \in 1..3, c \in Codes, o \in {Started, AddressAck, DataAck, 0, 248, 32}}
Emit(a, b, f, c, o, k) == PrintT(<<"TWI", a, b, Stat(1, f, c, o), D(k), Stat(2, f, c, o), D(k + a), Stat(3, f, c, o), D(k * 3 + b)>>)
ASSUME \A p \in Pairs : Emit(p[1], p[2], 4, 0, 0, p[1] + p[2])
ASSUME \A f \in Fails : \A k \in (IF DEEP THEN 0..20 ELSE 0..2) : Emit((f[2] + k * 31) % 256, (f[3] + k * 77 + 9) % 256, f[1], f[2], f[3], k + f[2])
\* a very slow bus
ASSUME \A d \in {<<66000, 0, 0>>, <<0, 66000, 1>>, <<0, 0, 70000>>, <<140000, 2, 3>>} : \A f \in {4, 3} :
          PrintT(<<"TWI", 12, 201, Stat(1, f, 0, 0), d[1], Stat(2, f, 0, 0), d[2], Stat(3, f, 0, 0), d[3]>>)
ASSUME \A br \in (IF DEEP THEN 0..255 ELSE {0, 1, 12, 72, 127, 128, 255}), ps \in 0..3 : PrintT(<<"INI", br, ps>>)
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
