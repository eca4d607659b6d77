------------------------------- MODULE LinAlg -------------------------------
(* Linear algebra over an arbitrary commutative ring. A matrix is a sequence *)
(* of rows, each a sequence of entries; vectors are matrices with one row or *)
(* one column. TLCEval makes TLC compute a matrix once instead of lazily.    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, One, Add(_, _), Mul(_, _), Neg(_),
          Dot(_, _)            \* inner product of two sequences

Rows(X) == Len(X)
Cols(X) == Len(X[1])
IsMatrix(X, n, m) == Len(X) = n /\ \A i \in 1..n : Len(X[i]) = m

Sub(a, b) == Add(a, Neg(b))

Transpose(X) == TLCEval([i \in 1..Cols(X) |-> TLCEval([j \in 1..Rows(X) |-> X[j][i]])])
MatMul(X, Y) == LET Y2 == Transpose(Y) IN TLCEval([i \in 1..Rows(X) |-> TLCEval([j \in 1..Len(Y2) |-> Dot(X[i], Y2[j])])])
MatAdd(X, Y) == TLCEval([i \in 1..Rows(X) |-> TLCEval([j \in 1..Cols(X) |-> Add(X[i][j], Y[i][j])])])
MatSub(X, Y) == TLCEval([i \in 1..Rows(X) |-> TLCEval([j \in 1..Cols(X) |-> Sub(X[i][j], Y[i][j])])])
MatScale(X, v) == TLCEval([i \in 1..Rows(X) |-> TLCEval([j \in 1..Cols(X) |-> Mul(X[i][j], v)])])
MatShift(X, v) == TLCEval([i \in 1..Rows(X) |-> TLCEval([j \in 1..Cols(X) |-> Add(X[i][j], v)])])
MatMap(X, F(_)) == TLCEval([i \in 1..Rows(X) |-> TLCEval([j \in 1..Cols(X) |-> F(X[i][j])])])
Ident(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN One ELSE Zero])])
Const(n, m, v) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> v])])
Symmetric(X) == X = Transpose(X)

\* determinant and adjugate of 1x1 and 2x2 matrices
Det(X) == IF Rows(X) = 1 THEN X[1][1]
          ELSE Sub(Mul(X[1][1], X[2][2]), Mul(X[1][2], X[2][1]))
Adjugate(X) == IF Rows(X) = 1 THEN <<<<One>>>>
               ELSE <<<<X[2][2], Neg(X[1][2])>>, <<Neg(X[2][1]), X[1][1]>>>>
Column(s) == TLCEval([i \in 1..Len(s) |-> <<s[i]>>])
=============================================================================
