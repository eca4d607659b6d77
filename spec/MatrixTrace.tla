----------------------------- MODULE MatrixTrace -----------------------------
(* Recorded programs over num::matrix<T,N,M>, for T the field of PRIME       *)
(* elements (exact for every order of evaluation), or, PRIME = 0, an integer *)
(* type or a floating-point type holding integers.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES mat, l
P_ == atoi(IOEnv.PRIME)
\* PRIME = -1: elements are opaque values, stored and read, not calculated with
Z0 == IF P_ = -1 THEN "0x0p+0" ELSE 0
Z1 == IF P_ = -1 THEN "0x1p+0" ELSE 1
Red(x) == IF P_ = 0 THEN x ELSE x % P_
RAdd(a, b) == Red(a + b)
RMul(a, b) == Red(a * b)
RNeg(a) == Red(-a)
RECURSIVE RDotN(_, _, _)
RDotN(f, g, k) == IF k = 0 THEN 0 ELSE Red(RDotN(f, g, k - 1) + f[k] * g[k])
RDot(f, g) == RDotN(f, g, Len(f))
S == INSTANCE Matrix WITH Zero <- Z0, One <- Z1, Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
A == INSTANCE LinAlg WITH Zero <- Z0, One <- Z1, Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* every access path shows the same elements
Shown(v, X) == /\ v.rows = Len(X) /\ v.cols = Len(X[1]) /\ v.size = Len(X) * Len(X[1])
               /\ v.rc = X
               /\ \A p \in {"flat", "call", "sub", "iter", "citer"} : v[p] = S!RowMajor(X)

InvOk(e) == IF P_ # 0 /\ A!Det(e.a) = 0 THEN TRUE
            ELSE IF S!Inverse(e.a, e.r) THEN TRUE
            ELSE IF Len(e.a) = 2 /\ S!Inverse(e.a, A!Transpose(e.r)) THEN PrintT(<<"KNOWN", "inverted-2x2-transposed">>)
            ELSE FALSE

Step(e) ==
    CASE e.ev = "session" -> mat' = <<>>
      [] e.ev = "fill"  -> S!Fill(e.id, e.n, e.m, e.v)
      [] e.ev = "list"  -> S!List(e.id, e.n, e.m, e.s)
      [] e.ev = "eye"   -> S!Put(e.id, A!Ident(e.n))
      [] e.ev = "copy"  -> S!Copy(e.id, e.from)
      [] e.ev = "write" -> S!Write(e.id, e.row, e.col, e.v)
      [] e.ev = "wflat" -> S!WriteFlat(e.id, e.k, e.v)
      [] e.ev = "look"  -> Shown(e.now, mat[e.id]) /\ UNCHANGED mat
      [] e.ev = "alg"   -> e.r = S!Result(e.op, e.a, e.b) /\ e.a2 = e.a /\ e.b2 = e.b /\ UNCHANGED mat
      [] e.ev = "twice" -> e.r = e.a /\ UNCHANGED mat
      [] e.ev = "inv"   -> InvOk(e) /\ e.a2 = e.a /\ UNCHANGED mat
      [] e.ev = "inv0"  -> e.r = 0 /\ UNCHANGED mat
      [] OTHER -> FALSE

TraceInit == l = 1 /\ S!Init
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mat, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
