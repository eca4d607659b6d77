-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic of unbounded size. Values are strings in a      *)
(* normal form, so equal numbers are equal TLA+ values; every operator also  *)
(* accepts integers and C99 hexadecimal floating-point literals. TLC uses    *)
(* the Java implementation java/Rat.java; the definitions below are stand-   *)
(* ins that are never evaluated.                                             *)
EXTENDS Integers, Sequences
LOCAL Stub(x) == CHOOSE y \in {} : TRUE
R(a) == Stub(a)              \* normal form
RFin(a) == Stub(a)           \* a finite number?
RAdd(a, b) == Stub(a)
RSub(a, b) == Stub(a)
RMul(a, b) == Stub(a)
RDiv(a, b) == Stub(a)
RNeg(a) == Stub(a)
RAbs(a) == Stub(a)
RMax(a, b) == Stub(a)
RMin(a, b) == Stub(a)
RLe(a, b) == Stub(a)
RLt(a, b) == Stub(a)
REq(a, b) == Stub(a)
RSign(a) == Stub(a)          \* -1, 0, 1 (an integer)
RFloor(a) == Stub(a)
RTrunc(a) == Stub(a)
RPow2(e) == Stub(e)          \* 2^e, e an integer
RInt(a) == Stub(a)           \* to a TLA+ integer
RIsInt(a) == Stub(a)
RNear(a, b, k, m) == Stub(a) \* |a - b| <= 2^-k |m|
RUp(a) == Stub(a)            \* |a| rounded up to about 32 significant bits
RTrim(a, k) == Stub(a)       \* within 2^-k of a, with denominator 2^k
RStr(a) == Stub(a)           \* decimal text, for messages
RDot(f, g) == Stub(f)        \* inner product of two sequences
RPi == Stub(0)
RSin2Pi(t) == Stub(t)        \* sin(2 pi t)
RCos2Pi(t) == Stub(t)
RTanPi(t) == Stub(t)         \* tan(pi t)
RExp(x) == Stub(x)
RPow10(x) == Stub(x)
RSqrt(x) == Stub(x)
RParseDec(t) == Stub(t)      \* value of a decimal literal, "nan" if it is none
=============================================================================
