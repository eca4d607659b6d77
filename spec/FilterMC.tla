------------------------------ MODULE FilterMC -------------------------------
(* Both realizations refine the difference equation, for all coefficients    *)
(* and all input histories over the field of P_ elements: whatever the past, *)
(* the next output to any input agrees.                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANT P_
FAdd(a, b) == (a + b) % P_
FMul(a, b) == (a * b) % P_
FNeg(a) == (P_ - a) % P_
RECURSIVE FDotN(_, _, _)
FDotN(f, g, k) == IF k = 0 THEN 0 ELSE (FDotN(f, g, k - 1) + f[k] * g[k]) % P_
FDot(f, g) == FDotN(f, g, Len(f))
INSTANCE Filter WITH Zero <- 0, Add <- FAdd, Mul <- FMul, Neg <- FNeg, Dot <- FDot
VARIABLES s, d, t
E == 0..(P_ - 1)
Init == /\ \E b0, b1, b2, a1, a2 \in E : s = Fresh(<<b0, b1, b2>>, <<a1, a2>>)
        /\ d = <<0, 0>> /\ t = <<0, 0>>
Feed == \E x \in E : s' = Fed(s, x) /\ d' = Df2Next(s, d, x) /\ t' = TdfNext(s, t, x)
Reset == s' = Cleared(s) /\ d' = <<0, 0>> /\ t' = <<0, 0>>
MCSpec == Init /\ [][Feed \/ Reset]_<<s, d, t>>
Agree == \A x \in E : Df2Out(s, d, x) = Out(s, x) /\ TdfOut(s, t, x) = Out(s, x)
\* linear and time invariant: the zero input keeps a cleared section silent
Silent == s.x = Past /\ s.y = Past => Out(s, 0) = 0
Coeffs == [][s'.b = s.b /\ s'.a = s.a]_s
=============================================================================
