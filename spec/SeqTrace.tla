------------------------------- MODULE SeqTrace -------------------------------
(* Sequence algorithms and text helpers as functions on sequences of small   *)
(* integers (texts are sequences of character codes).                        *)
EXTENDS Integers, Sequences, Rat, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* elements i..j-1 (0-based, half open)
Part(s, i, j) == SubSeq(s, i + 1, j)
\* d with the elements of p at 0-based position k
Over(d, k, p) == [x \in 1..Len(d) |-> IF x > k /\ x <= k + Len(p) THEN p[x - k] ELSE d[x]]
CopyOk(e) == LET p == Part(e.s, e.i, e.j)
             IN  /\ e.d1 = Over(e.d0, e.k, p)
                 /\ e.ret = e.k + Len(p)
                 /\ e.s1 = IF e.same THEN e.d1 ELSE e.s
FillOk(e) == e.d1 = Over(e.d0, e.i, [x \in 1..(e.j - e.i) |-> e.v])
Rel(p, a, b) == CASE p = "eq" -> a = b
                  [] p = "lt" -> a < b
                  [] p = "ge" -> a >= b
                  [] p = "any" -> TRUE
                  [] p = "none" -> FALSE
                  [] p = "near" -> a - b <= 1 /\ b - a <= 1
EqualOk(e) == LET p == Part(e.s, e.i, e.j)
              IN  /\ e.ret = (\A x \in 1..Len(p) : Rel(e.p, p[x], e.d0[e.k + x]))
                  /\ e.s1 = e.s /\ e.d1 = e.d0
SwapOk(e) == e.a1 = e.b0 /\ e.b1 = e.a0
LineOk(e) == e.t = [x \in 1..e.n |-> e.c]
\* the first occurrence, if any
Found(t, f) == {p \in 0..(Len(t) - Len(f)) : Part(t, p, p + Len(f)) = f}
First(S) == CHOOSE p \in S : \A q \in S : p <= q
ReplacedOk(e) == LET f == Found(e.t, e.from)
                 IN  /\ e.r = IF f = {} THEN e.t
                              ELSE Part(e.t, 0, First(f)) \o e.to \o Part(e.t, First(f) + Len(e.from), Len(e.t))
                     /\ e.kept
\* as<T>(x): x itself where it is representable; towards zero for integral T; nearest for floating T
AsOk(e) == CASE e.to = "int"   -> REq(e.y, RTrunc(e.x))
             [] e.to = "float" -> RNear(e.y, e.x, e.bits, e.x)
             [] OTHER -> FALSE
\* the stand-ins for the standard library where there is none: lists of 1, 2, 3 ..., limits, complex numbers
IlOk(e) == e.v = [x \in 1..e.n |-> x] /\ e.dist = e.n /\ e.size = e.n /\ e.b
LimitsOk(e) == /\ e.digits = (IF e.sign THEN e.bits - 1 ELSE e.bits)
               /\ e.signed = e.sign /\ e.integer
               /\ REq(e.max, RSub(RPow2(e.digits), 1))
               /\ REq(e.min, IF e.sign THEN RNeg(RPow2(e.digits)) ELSE 0)
\* zero; a; (a,b); a copy; assigned (a,b); assigned c; parts set to a, b; real part set to b; assigned (c,d) of another type; made of it
ComplexOk(e) == /\ e.re = <<0, e.a, e.a, e.a, e.a, e.c, e.a, e.b, e.c, e.c>>
                /\ e.im = <<0, 0, e.b, e.b, e.b, 0, e.b, e.b, e.d, e.d>>
                /\ e.kept
TraitsOk(e) == /\ e.i = e.integral /\ e.iv = e.integral /\ e.it = e.integral /\ e.s = e.sign /\ e.sv = e.sign
               /\ e.chosen = (IF e.integral THEN 1 ELSE 2)
               /\ e.c = -5 /\ e.d = 7 /\ e.void = 0
\* a type and its qualifiers: 1 const, 2 volatile, 4 and 8 reference; a reference hides the qualifiers of what it refers to
Strip(op, x) == CASE op = "ref" -> x % 4
                  [] op = "const" -> IF x < 4 /\ x % 2 = 1 THEN x - 1 ELSE x
                  [] op = "volatile" -> IF x < 4 /\ x >= 2 THEN x - 2 ELSE x
                  [] op = "cv" -> IF x < 4 THEN 0 ELSE x
StripOk(e) == /\ e.r = [k \in 1..4 |-> Strip(<<"ref", "const", "volatile", "cv">>[k], e.x)]
              /\ e.t = e.r /\ e.same = (e.x = 0) /\ e.same2 = e.same
Judge(e) == CASE e.ev = "copy"  -> CopyOk(e)
              [] e.ev = "fill"  -> FillOk(e)
              [] e.ev = "equal" -> EqualOk(e)
              [] e.ev = "swap"  -> SwapOk(e)
              [] e.ev = "line"  -> LineOk(e)
              [] e.ev = "replaced" -> ReplacedOk(e)
              [] e.ev = "il"    -> IlOk(e)
              [] e.ev = "limits" -> LimitsOk(e)
              [] e.ev = "complex" -> ComplexOk(e)
              [] e.ev = "traits" -> TraitsOk(e)
              [] e.ev = "strip" -> StripOk(e)
              [] e.ev = "as"    -> AsOk(e)
              [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
