----------------------------- MODULE ConstTrace -----------------------------
(* What the library computes in constant expressions. The meaning is that of *)
(* the specifications of numbers, matrices and sequences; whatever has one   *)
(* is a constant expression.                                                 *)
EXTENDS FixedTrace
CAdd(a, b) == a + b
CMul(a, b) == a * b
CNeg(a) == -a
RECURSIVE CDotN(_, _, _)
CDotN(f, g, n) == IF n = 0 THEN 0 ELSE CDotN(f, g, n - 1) + f[n] * g[n]
CDot(f, g) == CDotN(f, g, Len(f))
M == INSTANCE Matrix WITH Zero <- 0, One <- 1, Add <- CAdd, Mul <- CMul, Neg <- CNeg, Dot <- CDot, mat <- reg
SQ == INSTANCE SeqTrace WITH l <- l

\* case i has the value x: it is a constant, and this one
Is(e, i, x) == e.k[i] /\ REq(e.r[i], x)
MixC(e) == \A i \in 1..Len(e.a) :
              Fits(Conv(e, i), e.W) =>
                LET x == IF e.left THEN Conv(e, i) ELSE R(e.a[i])
                    y == IF e.left THEN R(e.a[i]) ELSE Conv(e, i)
                IN  Defined(e.op, x, y, e.F, e.W) => Is(e, i, Apply(e.op, x, y, e.F))
RECURSIVE Written(_, _, _, _, _)
\* row-major elements after the writes i..j
Written(q, at, val, i, j) == IF i > j THEN q ELSE Written([q EXCEPT ![at[i] + 1] = val[i]], at, val, i + 1, j)
WritesOk(e) == LET q == M!RowMajor(e.s)
               IN  /\ M!RowMajor(e.c) = Written(q, e.at, e.val, 1, 6)
                   /\ M!RowMajor(e.a) = Written(q, e.at, e.val, 7, 7)
                   /\ e.b = e.s /\ e.same /\ e.rows = Len(e.s) /\ e.columns = Len(e.s[1]) /\ e.size = e.rows * e.columns
                   /\ Len(e.a) = e.rows /\ Len(e.c) = e.rows
Const(e) ==
    CASE e.ev = "row" -> \A i \in 1..Len(e.a) : Defined(e.op, e.a[i], e.b[i], e.F, e.W) => Is(e, i, Apply(e.op, e.a[i], e.b[i], e.F))
      [] e.ev = "cmp" -> \A i \in 1..Len(e.a) : e.k[i] /\ e.r[i] = Order(e.a[i], e.b[i])
      [] e.ev = "mix" -> MixC(e)
      [] e.ev = "fromint"  -> \A i \in 1..Len(e.n) : Fits(FromInt(e.n[i], e.F), e.W) => Is(e, i, FromInt(e.n[i], e.F))
      [] e.ev = "fromreal" -> \A i \in 1..Len(e.n) : Fits(FromReal(e.n[i], e.F), e.W) => Is(e, i, FromReal(e.n[i], e.F))
      [] e.ev = "toreal"   -> \A i \in 1..Len(e.a) : Is(e, i, Value(e.a[i], e.F))
      [] e.ev = "toint"    -> \A i \in 1..Len(e.a) : Is(e, i, ToInt(e.a[i], e.F))
      [] e.ev = "alg"  -> e.k /\ e.r = M!Result(e.op, e.a, e.b)
      [] e.ev = "inv"  -> e.k /\ M!Inverse(e.a, e.r)
      [] e.ev = "inv0" -> e.k /\ e.r = 2 ^ e.n
      [] e.ev = "writes" -> e.k /\ WritesOk(e)
      [] e.ev \in {"copy", "fill", "equal", "swap"} -> e.con /\ SQ!Judge(e)
      [] OTHER -> FALSE
ConstInit == l = 1 /\ reg = <<>>
ConstNext == l <= Len(Trace) /\ Const(Trace[l]) /\ l' = l + 1 /\ UNCHANGED reg
ConstSpec == ConstInit /\ [][ConstNext]_<<reg, l>>
=============================================================================
