---------------------------- MODULE UniformBig -----------------------------
(* UniformInt's draw for results and engines of any width.                   *)
EXTENDS BigNat

RECURSIVE BDraw(_, _, _, _), BBucket(_, _, _, _), BReject(_, _, _, _, _), BDigits(_, _, _, _, _, _, _)

BDraw(br, r, us, i) ==
  IF r = NZero THEN <<i, NZero>>
  ELSE IF br = r THEN IF i > Len(us) THEN <<0, NZero>> ELSE <<i + 1, us[i]>>
  ELSE IF NLt(r, br) THEN BBucket(NQuo(NInc(br), NInc(r)), r, us, i)
  ELSE BReject(br, r, us, i, NQuo(NInc(r), NInc(br)))
BBucket(s, r, us, i) ==
  IF i > Len(us) THEN <<0, NZero>>
  ELSE LET v == NQuo(us[i], s) IN IF NLe(v, r) THEN <<i + 1, v>> ELSE BBucket(s, r, us, i + 1)
BReject(br, r, us, i, limit) == BDigits(br, r, us, i, limit, NZero, NOne)
BDigits(br, r, us, i, limit, acc, mult) ==
  IF NLe(mult, limit)
  THEN IF i > Len(us) THEN <<0, NZero>>
       ELSE LET a == NAdd(acc, NMul(us[i], mult))
                m == NMul(mult, NInc(br))
            IN IF m = NInc(r) THEN <<i + 1, a>>
               ELSE BDigits(br, r, us, i + 1, limit, a, m)
  ELSE LET d == BDraw(br, NQuo(r, mult), us, i)
       IN IF d[1] = 0 THEN d
          ELSE LET v == NAdd(acc, NMul(d[2], mult))
               IN IF NLe(v, r) THEN <<d[1], v>> ELSE BReject(br, r, us, d[1], limit)
=============================================================================
