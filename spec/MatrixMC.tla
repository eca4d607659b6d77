------------------------------ MODULE MatrixMC -------------------------------
(* Two small matrices over the integers modulo 3: every program of writes,   *)
(* copies and assignments; laws of the algebra on every reachable pair.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rws, Cls
P_ == 3
FAdd(a, b) == (a + b) % P_
FMul(a, b) == (a * b) % P_
FNeg(a) == (P_ - a) % P_
RECURSIVE FDotN(_, _, _)
FDotN(f, g, k) == IF k = 0 THEN 0 ELSE (FDotN(f, g, k - 1) + f[k] * g[k]) % P_
FDot(f, g) == FDotN(f, g, Len(f))
VARIABLE mat
INSTANCE Matrix WITH Zero <- 0, One <- 1, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot
A == INSTANCE LinAlg WITH Zero <- 0, One <- 1, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot
MCInit == mat = <<A!Const(Rws, Cls, 0), A!Const(Rws, Cls, 0)>>
Do(i) == \/ \E v \in {1, 2} : Fill(i, Rws, Cls, v)
         \/ \E s \in {<<1>>, <<2, 1>>} : List(i, Rws, Cls, s)
         \/ \E j \in 1..2 : Copy(i, j)
         \/ \E r \in 1..Rws, c \in 1..Cls, v \in 0..2 : Write(i, r, c, v)
         \/ \E k \in 0..(Rws * Cls - 1), v \in 0..2 : WriteFlat(i, k, v)
MCNext == \E i \in 1..2 : Do(i)
MCSpec == MCInit /\ [][MCNext]_mat
IsShape == \A i \in 1..2 : A!IsMatrix(mat[i], Rws, Cls)
FlatRoundTrip == \A i \in 1..2 : Shape(RowMajor(mat[i]), Rws, Cls) = mat[i]
OneTarget == [][Cardinality({ i \in 1..2 : mat'[i] # mat[i] }) <= 1]_mat
T(X) == A!Transpose(X)
Laws == LET X == mat[1]  Y == mat[2]
        IN  /\ A!MatAdd(X, Y) = A!MatAdd(Y, X) /\ A!MatSub(A!MatAdd(X, Y), Y) = X
            /\ T(T(X)) = X /\ T(A!MatMul(X, T(Y))) = A!MatMul(Y, T(X))
            /\ A!MatMul(A!Ident(Rws), X) = X /\ A!MatMul(X, A!Ident(Cls)) = X
            /\ A!MatMul(A!MatMul(X, T(Y)), X) = A!MatMul(X, A!MatMul(T(Y), X))
            /\ (Rws = Cls /\ Rws <= 2 /\ A!Det(X) # 0 => Inverse(X, A!MatScale(A!Adjugate(X), A!Det(X))))   \* 1/d = d in F3
            /\ (Rws = Cls /\ Rws <= 2 => A!Det(A!MatMul(X, Y)) = FMul(A!Det(X), A!Det(Y)))
=============================================================================
