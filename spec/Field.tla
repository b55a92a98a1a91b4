-------------------------------- MODULE Field --------------------------------
(* Arithmetic in the field of 32003 elements: an identity of rational        *)
(* functions holds in it if it holds at all, and one that does not hold      *)
(* fails at nearly every point.                                              *)
EXTENDS Integers
LOCAL PP == 32003
FE(n) == n % PP
FAdd(a, b) == (a + b) % PP
FSub(a, b) == (a - b) % PP
FMul(a, b) == (a * b) % PP
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 1 ELSE LET h == FPow(a, n \div 2) IN IF n % 2 = 0 THEN FMul(h, h) ELSE FMul(a, FMul(h, h))
FInv(a) == FPow(a, PP - 2)
FDiv(a, b) == FMul(a, FInv(b))
FNeg(a) == (0 - a) % PP
=============================================================================
