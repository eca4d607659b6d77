------------------------------ MODULE TextTrace -------------------------------
(* What stream output shows. A text is reduced to the numbers it contains,   *)
(* in order and per line ("matrix") or per section, and the stability        *)
(* verdicts; labels and separators are not judged. A number shows x when its *)
(* decimal value is x to the number of digits set for the stream.            *)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tens == [p \in 1..17 |-> RPow10(p)]
Shows(t, x, p) == LET v == RParseDec(t)
                  IN  /\ RFin(v) /\ RLe(RMul(Tens[p], RAbs(RSub(v, x))), RMul(6, RAbs(x)))
ShowsAll(ts, xs, p) == Len(ts) = Len(xs) /\ \A i \in 1..Len(xs) : Shows(ts[i], xs[i], p)
MatrixOk(e) == Len(e.got) = Len(e.want) /\ \A i \in 1..Len(e.want) : ShowsAll(e.got[i], e.want[i], e.prec)
ListOk(e)   == ShowsAll(e.got, e.want, e.prec)
Flat(s) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o s[k] IN F(Len(s))
\* parts of a section in order: coefficients a, b, state, poles, zeros
SectionOk(e) == /\ e.verdicts = <<e.stable>>
                /\ Len(e.got) = 2
                /\ ShowsAll(e.got[2], Flat(e.want), e.prec)
\* overall line, then each active section
CascadeOk(e) ==
    /\ Len(e.verdicts) = e.size + 1 /\ Len(e.got) = e.size + 2
    /\ e.verdicts[1] = (\A i \in 1..e.size : e.stable[i])
    /\ Len(e.got[1]) >= 2
    /\ ShowsAll(SubSeq(e.got[1], Len(e.got[1]) - 1, Len(e.got[1])), <<e.size, e.reserved>>, 6)
    /\ \A i \in 1..e.size : e.verdicts[i + 1] = e.stable[i] /\ ShowsAll(e.got[i + 2], Flat(e.want[i]), e.prec)
Judge(e) == CASE e.ev = "matrix"  -> MatrixOk(e) /\ e.kept
              [] e.ev = "list"    -> ListOk(e) /\ e.kept
              [] e.ev = "section" -> SectionOk(e) /\ e.kept
              [] e.ev = "cascade" -> CascadeOk(e) /\ e.kept
              [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
