------------------------------- MODULE Fixed -------------------------------
(* Real numbers in fixed point: a non-negative number is a tuple of six      *)
(* base-4096 digits <<f4, f3, f2, f1, i0, i1>>, that is                      *)
(* (f4 + f3*B + f2*B^2 + f1*B^3 + i0*B^4 + i1*B^5) / B^4 with B = 4096: 24   *)
(* bits before the point and 48 after it.  Results are truncated, so every   *)
(* operation is within a few units of 2^-48.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
LOCAL B == 4096

Zero == <<0, 0, 0, 0, 0, 0>>
One == <<0, 0, 0, 0, 1, 0>>
Half == <<0, 0, 0, 2048, 0, 0>>
FromInt(n) == <<0, 0, 0, 0, n % B, n \div B>>

FAdd(a, b) ==
  LET t1 == a[1] + b[1]
      t2 == a[2] + b[2] + (t1 \div B)
      t3 == a[3] + b[3] + (t2 \div B)
      t4 == a[4] + b[4] + (t3 \div B)
      t5 == a[5] + b[5] + (t4 \div B)
      t6 == a[6] + b[6] + (t5 \div B)
  IN <<t1 % B, t2 % B, t3 % B, t4 % B, t5 % B, t6>>
(* a - b for b <= a *)
FSub(a, b) ==
  LET t1 == a[1] - b[1]
      t2 == a[2] - b[2] + (t1 \div B)
      t3 == a[3] - b[3] + (t2 \div B)
      t4 == a[4] - b[4] + (t3 \div B)
      t5 == a[5] - b[5] + (t4 \div B)
      t6 == a[6] - b[6] + (t5 \div B)
  IN <<t1 % B, t2 % B, t3 % B, t4 % B, t5 % B, t6>>
FLt(a, b) ==
  IF a[6] # b[6] THEN a[6] < b[6] ELSE IF a[5] # b[5] THEN a[5] < b[5] ELSE
  IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3] ELSE
  IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
FLe(a, b) == ~FLt(b, a)
FMul(a, b) ==
  LET k3 == (a[1] * b[3]) + (a[2] * b[2]) + (a[3] * b[1])
      k4 == (a[1] * b[4]) + (a[2] * b[3]) + (a[3] * b[2]) + (a[4] * b[1]) + (k3 \div B)
      k5 == (a[1] * b[5]) + (a[2] * b[4]) + (a[3] * b[3]) + (a[4] * b[2]) + (a[5] * b[1]) + (k4 \div B)
      k6 == (a[1] * b[6]) + (a[2] * b[5]) + (a[3] * b[4]) + (a[4] * b[3]) + (a[5] * b[2]) + (a[6] * b[1]) + (k5 \div B)
      k7 == (a[2] * b[6]) + (a[3] * b[5]) + (a[4] * b[4]) + (a[5] * b[3]) + (a[6] * b[2]) + (k6 \div B)
      k8 == (a[3] * b[6]) + (a[4] * b[5]) + (a[5] * b[4]) + (a[6] * b[3]) + (k7 \div B)
      k9 == (a[4] * b[6]) + (a[5] * b[5]) + (a[6] * b[4]) + (k8 \div B)
      k10 == (a[5] * b[6]) + (a[6] * b[5]) + (k9 \div B)
  IN <<k5 % B, k6 % B, k7 % B, k8 % B, k9 % B, k10 % B>>
(* n < 2^18 *)
FMulInt(a, n) ==
  LET t1 == a[1] * n
      t2 == (a[2] * n) + (t1 \div B)
      t3 == (a[3] * n) + (t2 \div B)
      t4 == (a[4] * n) + (t3 \div B)
      t5 == (a[5] * n) + (t4 \div B)
      t6 == (a[6] * n) + (t5 \div B)
  IN <<t1 % B, t2 % B, t3 % B, t4 % B, t5 % B, t6 % B>>
FDivInt(a, n) ==
  LET t5 == ((a[6] % n) * B) + a[5]
      t4 == ((t5 % n) * B) + a[4]
      t3 == ((t4 % n) * B) + a[3]
      t2 == ((t3 % n) * B) + a[2]
      t1 == ((t2 % n) * B) + a[1]
  IN <<t1 \div n, t2 \div n, t3 \div n, t4 \div n, t5 \div n, a[6] \div n>>
FromRat(p, q) == FDivInt(FromInt(p), q)
(* multiplication and division by 2^n *)
RECURSIVE FShr(_, _), FShl(_, _)
FShr(a, n) == IF n = 0 \/ a = Zero THEN a
              ELSE IF n >= 12 THEN FShr(<<a[2], a[3], a[4], a[5], a[6], 0>>, n - 12) ELSE FDivInt(a, 2^n)
FShl(a, n) == IF n = 0 THEN a ELSE IF n >= 12 THEN FShl(<<0, a[1], a[2], a[3], a[4], a[5]>>, n - 12) ELSE FMulInt(a, 2^n)

(* the whole part, and floor(a * 2^24) for a <= 1 *)
Whole(a) == (a[6] * B) + a[5]
Scaled24(a) == (a[5] * B * B) + (a[4] * B) + a[3]

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
(* position of the leading one: 2^Lead(a) <= a < 2^(Lead(a)+1) *)
Lead(a) == LET k == CHOOSE i \in 1..6 : a[i] # 0 /\ \A j \in (i+1)..6 : a[j] = 0
           IN BitLen(a[k]) - 1 + (12 * (k - 5))
Norm(a) == LET e == Lead(a) IN IF e >= 0 THEN FShr(a, e) ELSE FShl(a, -e)      \* in [1, 2)

(* 1/m for m in [1,2): Newton steps from a 12-bit guess *)
LOCAL Recip(m) ==
  LET g == FromRat(4096, 4096 + m[4])
      step(y) == FMul(y, FSub(FromInt(2), FMul(m, y)))
  IN step(step(step(g)))
FDiv(a, b) == LET e == Lead(b)
                  q == FMul(a, Recip(Norm(b)))
              IN IF e >= 0 THEN FShr(q, e) ELSE FShl(q, -e)

(* signed numbers *)
Pos(a) == <<FALSE, a>>
Neg(a) == <<a # Zero, a>>
SNeg(s) == <<~s[1] /\ s[2] # Zero, s[2]>>
SAdd(s, t) == IF s[1] = t[1] THEN <<s[1], FAdd(s[2], t[2])>>
              ELSE IF FLe(t[2], s[2]) THEN <<s[1], FSub(s[2], t[2])>> ELSE <<t[1], FSub(t[2], s[2])>>
SSub(s, t) == SAdd(s, SNeg(t))
SMul(s, t) == <<s[1] # t[1], FMul(s[2], t[2])>>
SMulInt(s, n) == <<s[1] # (n < 0), FMulInt(s[2], IF n < 0 THEN -n ELSE n)>>

(* ln 2, pi and 1 / ln 2; LawModel checks them against each other and the series *)
LN2 == <<463, 3965, 535, 2839, 0, 0>>
PI == <<1443, 2184, 3946, 579, 3, 0>>
LOCAL INVLN2 == <<2095, 1323, 1142, 1813, 1, 0>>
Ix(n) == [i \in 1..n |-> i]

(* exp: s = n ln2 + r, Taylor for r *)
LOCAL Taylor(r) == FoldLeft(LAMBDA acc, k : LET t == FDivInt(FMul(acc[1], r), k) IN <<t, FAdd(acc[2], t)>>, <<One, One>>, Ix(18))[2]
ExpPos(x) == LET n == Whole(FMul(x, INVLN2))
                 m == IF FLt(x, FMulInt(LN2, n)) THEN n - 1 ELSE n
             IN FShl(Taylor(FSub(x, FMulInt(LN2, m))), m)
ExpNeg(x) == IF x[6] # 0 \/ x[5] > 40 THEN Zero
             ELSE LET n == Whole(FMul(x, INVLN2)) + 1
                      d == FMulInt(LN2, n)
                  IN IF FLe(x, d) THEN FShr(Taylor(FSub(d, x)), n) ELSE FShr(Taylor(FSub(FAdd(d, LN2), x)), n + 1)
Exp(s) == IF s[1] THEN ExpNeg(s[2]) ELSE ExpPos(s[2])

(* ln of a positive number, signed: ln m = 2 atanh((m-1)/(m+1)) *)
Ln(a) ==
  LET e == Lead(a)
      m == Norm(a)
      y == FDiv(FSub(m, One), FAdd(m, One))
      y2 == FMul(y, y)
      s == FoldLeft(LAMBDA acc, k : LET p == FMul(acc[1], y2) IN <<p, FAdd(acc[2], FDivInt(p, (2 * k) + 1))>>, <<y, y>>, Ix(15))[2]
      lm == FMulInt(s, 2)
  IN IF e >= 0 THEN Pos(FAdd(lm, FMulInt(LN2, e))) ELSE SSub(Pos(lm), Pos(FMulInt(LN2, -e)))
LnRat(p, q) == SSub(Ln(FromInt(p)), Ln(FromInt(q)))
(* a^(p/q) *)
FPow(a, p, q) == IF a = Zero THEN Zero ELSE LET t == Ln(a) IN Exp(<<t[1], FDivInt(FMulInt(t[2], p), q)>>)
Sqrt(a) == FPow(a, 1, 2)

(* ln Gamma(p/q): Stirling's series at or beyond 16 *)
LnGamma(p, q) ==
  LET sh == IF p >= 16 * q THEN 0 ELSE 16 - (p \div q)
      zp == p + (sh * q)
      z == FromRat(zp, q)
      l == Ln(z)
      i1 == FDiv(One, z)
      i2 == FMul(i1, i1)
      i3 == FMul(i1, i2)
      i5 == FMul(i3, i2)
      i7 == FMul(i5, i2)
      ser == FSub(FAdd(FDivInt(i1, 12), FDivInt(i5, 1260)), FAdd(FDivInt(i3, 360), FDivInt(i7, 1680)))
      h == SSub(SMul(SSub(Pos(z), Pos(Half)), l), Pos(z))
      hl2p == FDivInt(Ln(FMulInt(PI, 2))[2], 2)
      big == SAdd(h, Pos(FAdd(hl2p, ser)))
      logs == FoldLeft(LAMBDA acc, k : SAdd(acc, Ln(FromRat(p + ((k - 1) * q), q))), Pos(Zero), Ix(sh))
  IN SSub(big, logs)

(* square root of a whole number, rounded down *)
ISqrt(n) == LET RECURSIVE go(_, _)
                go(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN go(m, hi) ELSE go(lo, m)
            IN go(0, 46341)
=============================================================================
