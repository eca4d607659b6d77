--------------------------- MODULE MatrixRealTrace ---------------------------
(* Matrix algebra in floating point: within rounding of the exact result.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Rat
VARIABLES mat, l
TOL == atoi(IOEnv.TOL)
S == INSTANCE Matrix WITH Zero <- R(0), One <- R(1), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
A == INSTANCE LinAlg WITH Zero <- R(0), One <- R(1), Add <- RAdd, Mul <- RMul, Neg <- RNeg, Dot <- RDot
Trace == ndJsonDeserialize(IOEnv.TRACE)
Abs(X) == A!MatMap(X, RAbs)
Mag(op, X, Y) == CASE op \in {"sub", "add"} -> A!MatAdd(Abs(X), Abs(Y))
                   [] op \in {"adds", "subs", "rsubs"} -> A!MatShift(Abs(X), RAbs(Y[1][1]))
                   [] OTHER -> S!Result(op, Abs(X), Abs(Y))
Near(X, Y, G) == /\ Len(X) = Len(Y) /\ \A i \in 1..Len(X) : Len(X[i]) = Len(Y[i]) /\ \A j \in 1..Len(X[i]) : RNear(X[i][j], Y[i][j], TOL, G[i][j])
Exact(X) == A!MatMap(X, R)
Perm(X) == IF Len(X) = 1 THEN RAbs(X[1][1]) ELSE RAdd(RAbs(RMul(X[1][1], X[2][2])), RAbs(RMul(X[1][2], X[2][1])))
\* det * r must be the adjugate
InvNear(X, Z) == LET d == A!Det(X)
                     g == TLCEval(RAdd(1, RDiv(Perm(X), RAbs(d))))
                 IN  Near(A!MatScale(Z, d), A!Adjugate(X), A!MatScale(Abs(A!Adjugate(X)), g))
InvOk(X, Z) == IF RSign(A!Det(X)) = 0 \/ RLt(RMul(RAbs(A!Det(X)), RPow2(TOL - 6)), Perm(X)) THEN TRUE
               ELSE IF InvNear(X, Z) THEN TRUE
               ELSE IF Len(X) = 2 /\ InvNear(X, A!Transpose(Z)) THEN PrintT(<<"KNOWN", "inverted-2x2-transposed">>)
               ELSE FALSE
Step(e) ==
    /\ CASE e.ev = "alg" -> LET X == Exact(e.a)  Y == Exact(e.b) IN Near(Exact(e.r), S!Result(e.op, X, Y), Mag(e.op, X, Y)) /\ e.a2 = e.a /\ e.b2 = e.b
         [] e.ev = "twice" -> e.r = e.a
         [] e.ev = "inv"   -> InvOk(Exact(e.a), Exact(e.r)) /\ e.a2 = e.a
         [] e.ev = "inv0"  -> REq(e.r, 0)
         [] OTHER -> FALSE
    /\ UNCHANGED mat
TraceInit == l = 1 /\ mat = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mat, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  d - 1 = Len(Trace) \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
