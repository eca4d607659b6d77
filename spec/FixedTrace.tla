------------------------------ MODULE FixedTrace ------------------------------
(* Recorded tables and programs of num::fixed_point against Fixed.           *)
EXTENDS Fixed, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* rows are parallel sequences: operands a, b, result r, left operand after the compound assignment c
RowOk(e) == /\ e.kept                                        \* the operands are as before
            /\ \A i \in 1..Len(e.a) :
                  Defined(e.op, e.a[i], e.b[i], e.F, e.W) =>
                      LET x == Apply(e.op, e.a[i], e.b[i], e.F)
                      IN  REq(e.r[i], x) /\ REq(e.c[i], x)
\* the other operand is a number n, converted to the format first
Conv(e, i) == FromReal(e.n[i], e.F)
MixOk(e) == \A i \in 1..Len(e.a) :
              Fits(Conv(e, i), e.W) =>
                LET x == IF e.left THEN Conv(e, i) ELSE R(e.a[i])
                    y == IF e.left THEN R(e.a[i]) ELSE Conv(e, i)
                IN  Defined(e.op, x, y, e.F, e.W) => REq(e.r[i], Apply(e.op, x, y, e.F))
CmpMixOk(e) == \A i \in 1..Len(e.a) :
              Fits(Conv(e, i), e.W) => e.r[i] = IF e.left THEN Order(Conv(e, i), e.a[i]) ELSE Order(e.a[i], Conv(e, i))
\* exact up to 24 significant bits, otherwise the nearest single-precision number
FloatOk(x, r, F) == IF RLe(RAbs(r), RPow2(24)) THEN REq(x, Value(r, F)) ELSE RNear(x, Value(r, F), 24, Value(r, F))

Ok(e) ==
    CASE e.ev = "row"  -> RowOk(e)
      [] e.ev = "cmp"  -> \A i \in 1..Len(e.a) : e.r[i] = Order(e.a[i], e.b[i])
      [] e.ev = "mix"  -> MixOk(e)
      [] e.ev = "cmpmix" -> CmpMixOk(e)
      [] e.ev = "fromint"  -> \A i \in 1..Len(e.n) : Fits(FromInt(e.n[i], e.F), e.W) => REq(e.r[i], FromInt(e.n[i], e.F))
      [] e.ev = "fromreal" -> \A i \in 1..Len(e.n) : Fits(FromReal(e.n[i], e.F), e.W) => REq(e.r[i], FromReal(e.n[i], e.F))
      [] e.ev = "same"     -> \A i \in 1..Len(e.n) : REq(e.r[i], e.n[i])
      [] e.ev = "toreal"   -> \A i \in 1..Len(e.a) : REq(e.r[i], Value(e.a[i], e.F))
      [] e.ev = "tofloat"  -> \A i \in 1..Len(e.a) : FloatOk(e.r[i], e.a[i], e.F)
      [] e.ev = "toint"    -> \A i \in 1..Len(e.a) : LET n == ToInt(e.a[i], e.F)
                                 IN  RLe(e.lo, n) /\ RLe(n, e.hi) => REq(e.r[i], n)
      [] e.ev = "limits"   -> /\ REq(e.min, Lowest(e.W)) /\ REq(e.max, Highest(e.W))
                              /\ e.digits = e.W - 1 /\ e.integer = e.W - 1 - e.F /\ e.fractional = e.F
      [] OTHER -> FALSE

Step(e) ==
    CASE e.ev = "regs" -> reg' = e.r
      [] e.ev = "op"   -> Assign(e.d, e.op, e.i, e.j, e.r[e.d], e.F, e.W) /\ reg' = e.r /\ REq(e.ret, e.r[e.d])
      [] OTHER -> Ok(e) /\ UNCHANGED reg

TraceInit == l = 1 /\ reg = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<reg, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
