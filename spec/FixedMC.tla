------------------------------- MODULE FixedMC -------------------------------
(* All programs over two variables of a small format.                        *)
EXTENDS Fixed
CONSTANTS W, F
Reps == { RSub(RFloor(k), 2^(W - 1)) : k \in 0..(2^W - 1) }
Init == reg \in [{1, 2} -> Reps]
Next == \E d, i, j \in {1, 2} : \E op \in {"add", "sub", "mul", "div", "neg", "set"} :
           /\ Defined(op, reg[i], reg[j], F, W)
           /\ Assign(d, op, i, j, Apply(op, reg[i], reg[j], F), F, W)
Spec == Init /\ [][Next]_reg
a == reg[1]
b == reg[2]
V(r) == Value(r, F)
Q == RPow2(-F)
Closed == \A i \in {1, 2} : Fits(reg[i], W) /\ RIsInt(reg[i])
RoundTrips == /\ FromReal(V(a), F) = a
              /\ (RIsInt(V(a)) => FromInt(V(a), F) = a /\ ToInt(a, F) = V(a))
              /\ RLe(RAbs(ToInt(a, F)), RAbs(V(a)))
              /\ LET x == RMul(RAdd(V(a), V(b)), RPow2(-1)) IN RLe(RAbs(RSub(V(FromReal(x, F)), x)), RMul(Q, RPow2(-1)))
SumsExact == V(Sum(a, b, F)) = RAdd(V(a), V(b)) /\ V(Diff(a, b, F)) = RSub(V(a), V(b))
ProductDown == LET e == RMul(V(a), V(b))  p == V(Prod(a, b, F)) IN RLe(p, e) /\ RLt(e, RAdd(p, Q))
QuotientIn == RSign(b) # 0 => LET e == RDiv(V(a), V(b))  p == V(Quot(a, b, F)) IN RLe(RAbs(p), RAbs(e)) /\ RLt(RAbs(RSub(e, p)), Q)
OrderReal == /\ Order(a, b) = IF RLt(V(a), V(b)) THEN 14 ELSE IF V(a) = V(b) THEN 41 ELSE 50
             /\ (Fits(Diff(a, b, F), W) => (Order(a, b) = Order(Diff(a, b, F), R(0))))
ProductInverse == RSign(b) # 0 /\ Fits(Prod(a, b, F), W) /\ RIsInt(RMul(RMul(a, b), Q)) => Quot(Prod(a, b, F), b, F) = a
=============================================================================
