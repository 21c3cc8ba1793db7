-------------------------------- MODULE Num --------------------------------
(* Fixed-point numbers <<h, l>> = h + l / B, 0 <= l < B, for TLC's 32-bit
   integers.  Multiplication by small integers is exact, division rounds down. *)
EXTENDS Integers
B == 1048576
NZero == <<0, 0>>
NInt(k) == <<k, 0>>
NAdd(a, b) == LET l == a[2] + b[2] IN
              IF l >= B THEN <<a[1] + b[1] + 1, l - B>> ELSE <<a[1] + b[1], l>>
NScale(k, a) == LET l == k * a[2] IN <<k * a[1] + (l \div B), l % B>>
NNeg(a) == NScale(-1, a)
NSub(a, b) == NAdd(a, NNeg(b))
NDiv(a, d) == <<a[1] \div d, ((a[1] % d) * B + a[2]) \div d>>
\* |a| < 1/2^k-ish: used for laws that hold up to the rounding of NDiv
NTiny(a) == \/ a[1] = 0 /\ a[2] < 65536
            \/ a[1] = -1 /\ a[2] > B - 65536
VZero == <<NZero, NZero, NZero>>
VAdd(a, b) == <<NAdd(a[1], b[1]), NAdd(a[2], b[2]), NAdd(a[3], b[3])>>
VScale(k, a) == <<NScale(k, a[1]), NScale(k, a[2]), NScale(k, a[3])>>
VDiv(a, d) == <<NDiv(a[1], d), NDiv(a[2], d), NDiv(a[3], d)>>
=============================================================================
