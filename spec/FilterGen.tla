------------------------------ MODULE FilterGen ------------------------------
(* Behaviours of the editing and filtering interface, for replay into the    *)
(* real classes. KIND = "cascade": edits of a cascade (and an independent    *)
(* copy of it, exchanged by X) of capacity CAP; KIND = "section": operations *)
(* on two sections. Every behaviour of length LEN is printed.                *)
EXTENDS Integers, Sequences, TLC, IOUtils
VARIABLES n, hist
KIND == IOEnv.KIND
CAP == atoi(IOEnv.CAP)
LEN == atoi(IOEnv.LEN)
Op(o) == hist' = Append(hist, o)
Str(c, i) == c \o ToString(i)
\* n: sizes of the cascade in hand and of the other one
Cascade == \/ n[1] < CAP /\ Op("A") /\ n' = [n EXCEPT ![1] = @ + 1]
           \/ n[1] < CAP /\ (\E i \in 0..(n[1] - 1) : Op(Str("I", i))) /\ n' = [n EXCEPT ![1] = @ + 1]
           \/ (\E i \in 0..(n[1] - 1) : Op(Str("R", i))) /\ n' = [n EXCEPT ![1] = @ - 1]
           \/ (\E i \in 0..(n[1] - 1) : Op(Str("P", i))) /\ n' = n
           \/ Op("C") /\ n' = [n EXCEPT ![1] = 0]
           \/ Op("S") /\ n' = n
           \/ Op("Z") /\ n' = n
           \/ Op("K") /\ n' = [n EXCEPT ![2] = n[1]]
           \/ n[1] # n[2] /\ Op("X") /\ n' = <<n[2], n[1]>>
Section == n' = n /\ \/ \E i \in 0..1 : \/ Op(Str("S", i)) \/ Op(Str("Z", i)) \/ Op(Str("W", i)) \/ Op(Str("K", i)) \/ Op(Str("G", i)) \/ Op(Str("N", i))
                     \/ Op("X")
Init == n = <<0, 0>> /\ hist = <<>>
Next == Len(hist) < LEN /\ IF KIND = "cascade" THEN Cascade ELSE Section
Spec == Init /\ [][Next]_<<n, hist>>
Shown == Len(hist) = LEN => PrintT(<<"BEH", hist>>)
=============================================================================
