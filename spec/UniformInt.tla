---------------------------- MODULE UniformInt -----------------------------
(* A uniform integer in 0..r from values in 0..br: the algorithm of          *)
(* uniform_int_distribution, on words of up to 64 bits.                      *)
(*                                                                           *)
(* Draw(br, r, us, i): the first unread engine value is us[i].  The result   *)
(* is <<next i, value>>, or <<0, Zero>> when the string us is too short.     *)
EXTENDS Words

RECURSIVE DivBig(_, _, _)          \* quotient below 2^15 by subtraction
DivBig(x, y, q) == IF Lt(x, y) THEN <<N2W(q), x>> ELSE DivBig(Sub(x, y), y, q + 1)
QuoRem(x, y) == IF y[5] # 0 THEN DivBig(x, y, 0)
                ELSE LET q == DivW(x, y) IN <<q, Sub(x, Mul(q, y))>>
Quo(x, y) == QuoRem(x, y)[1]

Inc(x) == Add(x, One)

RECURSIVE Draw(_, _, _, _), Bucket(_, _, _, _, _), Reject(_, _, _, _, _), Digits(_, _, _, _, _, _, _)

Draw(br, r, us, i) ==
  IF r = Zero THEN <<i, Zero>>
  ELSE IF br = r THEN IF i > Len(us) THEN <<0, Zero>> ELSE <<i + 1, us[i]>>
  ELSE IF Lt(r, br) THEN Bucket(Quo(Inc(br), Inc(r)), r, us, i, 0)
  ELSE Reject(br, r, us, i, Quo(Inc(r), Inc(br)))

(* the engine's range is cut into r+1 buckets of s values; the rest is rejected *)
Bucket(s, r, us, i, n) ==
  IF i > Len(us) THEN <<0, Zero>>
  ELSE LET v == Quo(us[i], s) IN IF Le(v, r) THEN <<i + 1, v>> ELSE Bucket(s, r, us, i + 1, n)

(* numbers to base br+1, least significant digit first, while they stay     *)
(* within limit; one more digit, uniform on the rest; reject what exceeds r  *)
Reject(br, r, us, i, limit) == Digits(br, r, us, i, limit, Zero, One)
Digits(br, r, us, i, limit, acc, mult) ==
  IF Le(mult, limit)
  THEN IF i > Len(us) THEN <<0, Zero>>
       ELSE LET a == Add(acc, Mul(us[i], mult))
                m == Mul(mult, Inc(br))
            IN IF m = Inc(r) THEN <<i + 1, a>>            \* r+1 is a power of br+1
               ELSE Digits(br, r, us, i + 1, limit, a, m)
  ELSE LET d == Draw(br, Quo(r, mult), us, i)             \* the leading digit
       IN IF d[1] = 0 THEN d
          ELSE LET v == Add(acc, Mul(d[2], mult))
               IN IF Le(v, r) THEN <<d[1], v>> ELSE Reject(br, r, us, d[1], limit)
=============================================================================
