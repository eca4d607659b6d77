-------------------------------- MODULE Fixed --------------------------------
(* Fixed-point numbers of W bits of which F are fractional. A number is its  *)
(* representation r, an integer with -2^(W-1) <= r < 2^(W-1); it stands for  *)
(* the real r / 2^F. Operators give the representation that is prescribed    *)
(* when it fits; where it does not fit nothing is prescribed.                *)
EXTENDS Integers, Sequences, TLC, Rat
VARIABLE reg                  \* the fixed-point variables of a program

Lowest(W)  == RNeg(RPow2(W - 1))
Highest(W) == RSub(RPow2(W - 1), 1)
Fits(r, W) == RLe(Lowest(W), r) /\ RLe(r, Highest(W))
Value(r, F) == RMul(r, RPow2(-F))

\* conversions
Away(x) == LET f == RFloor(RAdd(RAbs(x), RPow2(-1))) IN IF RSign(x) < 0 THEN RNeg(f) ELSE f
FromInt(n, F)  == RMul(n, RPow2(F))
FromReal(x, F) == Away(RMul(x, RPow2(F)))          \* nearest, ties away from zero
ToInt(r, F)    == RTrunc(Value(r, F))

\* arithmetic on representations
Sum(a, b, F)  == RAdd(a, b)
Diff(a, b, F) == RSub(a, b)
Prod(a, b, F) == RFloor(RMul(RMul(a, b), RPow2(-F)))          \* rounded down
Quot(a, b, F) == RTrunc(RDiv(RMul(a, RPow2(F)), b))           \* truncated
Apply(op, a, b, F) ==
    CASE op = "add" -> Sum(a, b, F) [] op = "sub" -> Diff(a, b, F)
      [] op = "mul" -> Prod(a, b, F) [] op = "div" -> Quot(a, b, F)
      [] op = "neg" -> RNeg(a) [] op = "pos" -> R(a) [] op = "set" -> R(b)
Defined(op, a, b, F, W) == (op = "div" => RSign(b) # 0) /\ Fits(Apply(op, a, b, F), W)

\* order: eq 1, ne 2, lt 4, le 8, gt 16, ge 32
Order(a, b) == IF RLt(a, b) THEN 2 + 4 + 8 ELSE IF REq(a, b) THEN 1 + 8 + 32 ELSE 2 + 16 + 32

\* programs: assign to register d the result of applying op to registers; all others stay
Assign(d, op, i, j, r, F, W) ==
    /\ Defined(op, reg[i], reg[j], F, W) => REq(r, Apply(op, reg[i], reg[j], F))
    /\ reg' = [reg EXCEPT ![d] = r]
=============================================================================
