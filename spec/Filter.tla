------------------------------- MODULE Filter --------------------------------
(* Digital filter sections and cascades of them, over any ring. A section is *)
(* its coefficients and the history of its inputs and outputs since it was   *)
(* last cleared; what it computes is its difference equation                 *)
(*   y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2]          *)
(* (a one-pole section has only b0 and a1). A cascade is a sequence of at    *)
(* most Cap sections. Internal delay lines are realizations, see FilterMC.   *)
EXTENDS Integers, Sequences
CONSTANTS Zero, Add(_, _), Mul(_, _), Neg(_), Dot(_, _)

Past == <<Zero, Zero>>
Fresh(b, a) == [b |-> b, a |-> a, x |-> Past, y |-> Past]
Out(s, x) == Add(Dot(s.b, SubSeq(<<x>> \o s.x, 1, Len(s.b))), Neg(Dot(s.a, SubSeq(s.y, 1, Len(s.a)))))
Fed(s, x) == [s EXCEPT !.x = <<x, s.x[1]>>, !.y = <<Out(s, x), s.y[1]>>]
Cleared(s) == Fresh(s.b, s.a)

RECURSIVE FedAll(_, _, _)
FedAll(s, xs, k) == IF k = 0 THEN s ELSE Fed(FedAll(s, xs, k - 1), xs[k])
RECURSIVE Outs(_, _, _)
Outs(s, xs, k) == IF k > Len(xs) THEN <<>> ELSE <<Out(s, xs[k])>> \o Outs(Fed(s, xs[k]), xs, k + 1)

---------------------------------------------------------------------------
(* Cascades: c is a sequence of sections. *)
RECURSIVE COut(_, _)
COut(c, x) == IF c = <<>> THEN x ELSE COut(Tail(c), Out(Head(c), x))
RECURSIVE CFed(_, _)
CFed(c, x) == IF c = <<>> THEN <<>> ELSE <<Fed(Head(c), x)>> \o CFed(Tail(c), Out(Head(c), x))
CCleared(c) == [k \in 1..Len(c) |-> Cleared(c[k])]
Inserted(c, i, s) == SubSeq(c, 1, i) \o <<s>> \o SubSeq(c, i + 1, Len(c))       \* i counts from 0
Removed(c, i) == SubSeq(c, 1, i) \o SubSeq(c, i + 2, Len(c))
Replaced(c, i, s) == [c EXCEPT ![i + 1] = s]

---------------------------------------------------------------------------
(* The two realizations offered: delay lines v1, v2. *)
Df2Out(s, v, x) == LET w == Add(x, Neg(Dot(s.a, v))) IN Dot(s.b, <<w>> \o v)
Df2Next(s, v, x) == <<Add(x, Neg(Dot(s.a, v))), v[1]>>
TdfOut(s, v, x) == Add(Mul(s.b[1], x), v[1])
TdfNext(s, v, x) == LET y == TdfOut(s, v, x)
                    IN  <<Add(Add(Mul(s.b[2], x), Neg(Mul(s.a[1], y))), v[2]), Add(Mul(s.b[3], x), Neg(Mul(s.a[2], y)))>>
=============================================================================
