------------------------------ MODULE BigNat -------------------------------
(* Natural numbers of any size: little-endian sequences of 15-bit limbs      *)
(* without leading zeros; zero is the empty sequence.                        *)
EXTENDS Integers, Sequences

NB == 32768
NZero == <<>>
NOne == <<1>>
NAt(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
NMax(i, j) == IF i < j THEN j ELSE i

RECURSIVE NTrim(_), NAddFrom(_, _, _, _), NSubFrom(_, _, _, _), NScaleFrom(_, _, _, _), NMulFrom(_, _, _), NLess(_, _, _),
          NDigit(_, _, _, _), NDivFrom(_, _, _, _, _)
NTrim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN NTrim(SubSeq(x, 1, Len(x) - 1)) ELSE x

NAddFrom(x, y, i, c) ==
  IF i > NMax(Len(x), Len(y)) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == NAt(x, i) + NAt(y, i) + c IN <<s % NB>> \o NAddFrom(x, y, i + 1, s \div NB)
NAdd(x, y) == NAddFrom(x, y, 1, 0)

(* x - y, for y <= x *)
NSubFrom(x, y, i, c) ==
  IF i > Len(x) THEN <<>>
  ELSE LET s == x[i] - NAt(y, i) - c IN <<s % NB>> \o NSubFrom(x, y, i + 1, IF s < 0 THEN 1 ELSE 0)
NSub(x, y) == NTrim(NSubFrom(x, y, 1, 0))

(* x * d for one limb d *)
NScaleFrom(x, d, i, c) ==
  IF i > Len(x) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == x[i] * d + c IN <<s % NB>> \o NScaleFrom(x, d, i + 1, s \div NB)
NScale(x, d) == IF d = 0 THEN <<>> ELSE NScaleFrom(x, d, 1, 0)
NShift(x, d) == IF x = <<>> /\ d = 0 THEN <<>> ELSE <<d>> \o x     \* x * 2^15 + d
NMulFrom(x, y, i) == IF i > Len(y) THEN <<>>
                     ELSE NAdd(NScale(x, y[i]), LET t == NMulFrom(x, y, i + 1) IN NShift(t, 0))
NMul(x, y) == NMulFrom(x, y, 1)

NLess(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE NLess(x, y, i - 1)
NLt(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE NLess(x, y, Len(x))
NLe(x, y) == ~NLt(y, x)

(* the largest digit q in lo..hi with q * y <= r *)
NDigit(r, y, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN IF NLe(NScale(y, m), r) THEN NDigit(r, y, m, hi) ELSE NDigit(r, y, lo, m - 1)
(* long division: digits of x from the i-th down, remainder so far r, quotient so far q *)
NDivFrom(x, y, i, r, q) ==
  IF i = 0 THEN <<NTrim(q), r>>
  ELSE LET s == NShift(r, x[i])
           d == IF NLt(s, y) THEN 0 ELSE NDigit(s, y, 0, NB - 1)
       IN NDivFrom(x, y, i - 1, IF d = 0 THEN s ELSE NSub(s, NScale(y, d)), <<d>> \o q)
NQuoRem(x, y) == NDivFrom(x, y, Len(x), <<>>, <<>>)
NQuo(x, y) == NQuoRem(x, y)[1]
NInc(x) == NAdd(x, NOne)
=============================================================================
