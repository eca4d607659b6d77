------------------------------- MODULE Transfer -------------------------------
(* Transfer functions over exact rationals: polynomials in z^-1 on the unit  *)
(* circle, and the Jury criterion.                                           *)
EXTENDS Integers, Sequences, Rat, TLC
RECURSIVE SumAbs(_, _)
SumAbs(s, k) == IF k = 0 THEN R(0) ELSE RAdd(SumAbs(s, k - 1), RAbs(s[k]))
RECURSIVE MaxAbs(_, _)
MaxAbs(s, k) == IF k = 0 THEN R(0) ELSE RMax(MaxAbs(s, k - 1), RAbs(s[k]))
Ex(s) == [k \in 1..Len(s) |-> R(s[k])]

(* responses: polynomial in z^-1 at z = exp(2 pi i f) *)
CAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
CMul(u, v) == <<RSub(RMul(u[1], v[1]), RMul(u[2], v[2])), RAdd(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
RECURSIVE Poly(_, _, _)
Poly(c, f, k) == IF k = 0 THEN <<R(0), R(0)>>
                 ELSE LET t == TLCEval(RMul(k - 1, f))
                      IN  CAdd(Poly(c, f, k - 1), <<RMul(c[k], RCos2Pi(t)), RNeg(RMul(c[k], RSin2Pi(t)))>>)
CAbs1(u) == RAdd(RAbs(u[1]), RAbs(u[2]))
CSq(u) == RAdd(RMul(u[1], u[1]), RMul(u[2], u[2]))
\* both roots of z^2 + a1 z + a2 within the circle of radius r (Jury)
Within(a1, a2, r) == RLe(RAbs(a2), RMul(r, r)) /\ RLe(RMul(r, RAbs(a1)), RAdd(RMul(r, r), a2))
=============================================================================
