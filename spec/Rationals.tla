----------------------------- MODULE Rationals -----------------------------
(* Exact rationals <<n, d>>, d > 0, in lowest terms. *)
EXTENDS Integers
RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)
RAbs(x) == IF x < 0 THEN 0 - x ELSE x
RNorm(n, d) == LET g == RGcd(RAbs(n), RAbs(d))
                   s == IF d < 0 THEN 0 - 1 ELSE 1
               IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
R(n) == <<n, 1>>
RAdd(a, b) == LET g == RGcd(a[2], b[2])
              IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RSub(a, b) == RAdd(a, <<0 - b[1], b[2]>>)
RMul(a, b) == LET g1 == RGcd(RAbs(a[1]), b[2])
                  g2 == RGcd(RAbs(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                 ELSE RNorm((a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1))
RInv(a) == RNorm(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RNeg(a) == <<0 - a[1], a[2]>>
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a = b
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN 0 - 1 ELSE 0
RAbsV(a) == IF a[1] < 0 THEN RNeg(a) ELSE a
RECURSIVE RSumF(_, _)
RSumF(f, n) == IF n = 0 THEN R(0) ELSE RAdd(RSumF(f, n - 1), f[n])   \* f[1] + ... + f[n]
RSum(s) == RSumF(s, IF s = <<>> THEN 0 ELSE CHOOSE n \in 1..1000: DOMAIN s = 1..n)
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R(1) ELSE RMul(a, RPow(a, k - 1))
=============================================================================
