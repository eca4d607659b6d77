---------------------------- MODULE HeaderTrace -----------------------------
(* Programs made of the headers of the library: every program consists of    *)
(* translation units, each including some headers in some order, some of     *)
(* them repeatedly, and using what these headers provide. The state is what  *)
(* the names of each header have been found to mean: the first program that  *)
(* uses a header on its own settles it, and no order, combination, standard, *)
(* compiler or number of units may change it.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, meaning
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rng(q) == {q[i] : i \in DOMAIN q}
\* what unit k of the program says its headers mean: <<header, text>>
Said(e) == UNION {Rng(e.said[k]) : k \in DOMAIN e.said}
Consistent(e) ==
    /\ Len(e.said) = Len(e.units)
    /\ \A k \in DOMAIN e.units : {p[1] : p \in Rng(e.said[k])} = Rng(e.units[k])
    /\ \A p, q \in Said(e) : p[1] = q[1] => p[2] = q[2]
    /\ \A p \in Said(e) : p[1] \in DOMAIN meaning => p[2] = meaning[p[1]]
Step(e) ==
    /\ e.ok
    /\ CASE e.run -> /\ Consistent(e)
                     /\ meaning' = [h \in DOMAIN meaning \cup {p[1] : p \in Said(e)} |->
                                      IF h \in DOMAIN meaning THEN meaning[h] ELSE (CHOOSE p \in Said(e) : p[1] = h)[2]]
         [] OTHER -> UNCHANGED meaning
TraceInit == l = 1 /\ meaning = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, meaning>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d = Len(Trace) + 1 \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
