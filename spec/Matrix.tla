------------------------------- MODULE Matrix -------------------------------
(* Matrices as objects of a program: mat[i] is the matrix named i, a         *)
(* sequence of rows. Algebra never changes its operands, a write changes one *)
(* element, copies are values.                                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, One, Add(_, _), Mul(_, _), Neg(_), Dot(_, _)
VARIABLE mat
LA == INSTANCE LinAlg

\* --- the store: row-major elements ---------------------------------------
N(i) == Len(mat[i])
M(i) == Len(mat[i][1])
RowMajor(X) == TLCEval([k \in 1..(Len(X) * Len(X[1])) |-> X[1 + ((k - 1) \div Len(X[1]))][1 + ((k - 1) % Len(X[1]))]])
Shape(s, n, m) == TLCEval([r \in 1..n |-> TLCEval([c \in 1..m |-> s[(r - 1) * m + c]])])

Init == mat = <<>>
Put(i, X) == mat' = (i :> X) @@ mat
Fill(i, n, m, v)  == Put(i, LA!Const(n, m, v))
List(i, n, m, s)  == Put(i, Shape([k \in 1..(n * m) |-> IF k <= Len(s) THEN s[k] ELSE Zero], n, m))
Copy(i, j)        == Put(i, mat[j])
Write(i, r, c, v) == mat' = [mat EXCEPT ![i] = [@ EXCEPT ![r] = [@ EXCEPT ![c] = v]]]       \* one element
WriteFlat(i, k, v) == Write(i, 1 + (k \div M(i)), 1 + (k % M(i)), v)                        \* k from 0

\* --- algebra --------------------------------------------------------------
Result(op, X, Y) ==
    CASE op = "add" -> LA!MatAdd(X, Y)    [] op = "sub" -> LA!MatSub(X, Y)
      [] op = "mul" -> LA!MatMul(X, Y)
      \* with a number, or a one-by-one matrix standing for one, Y = <<<<v>>>>
      [] op = "adds" -> LA!MatShift(X, Y[1][1])  [] op = "subs" -> LA!MatShift(X, Neg(Y[1][1]))
      [] op = "muls" -> LA!MatScale(X, Y[1][1])
      [] op = "rsubs" -> LA!MatShift(LA!MatMap(X, Neg), Y[1][1])
      [] op = "transposed" -> LA!Transpose(X)
      [] op = "eye" -> LA!Ident(Len(X))
Inverse(X, Z) == LA!MatMul(X, Z) = LA!Ident(Len(X)) /\ LA!MatMul(Z, X) = LA!Ident(Len(X))
=============================================================================
