------------------------------ MODULE SeedSeq ------------------------------
(***************************************************************************)
(* seed_seq: a stored sequence of 32-bit words and the mixing procedure of  *)
(* the C++ standard ([rand.util.seedseq]) that stretches or folds it to any *)
(* requested length.  Written from the standard's text, on limb words.      *)
(***************************************************************************)
EXTENDS Words, SequencesExt

FILL  == HL(2, 193694603)         \* 0x8b8b8b8b
MUL1  == HL(0, 1664525)
MUL2  == HL(1, 492342117)         \* 1566083941
ASSUME FILL = Add(Shl(N2W(35723), 16), N2W(35723))   \* 0x8b8b = 35723

T(x) == Low32(XorW(x, Shr(x, 27)))
M32(x, y) == Low32(Mul(x, y))
A32(x, y) == Low32(Add(x, y))
S32(x, y) == Low32(Sub(x, y))

TT(n) == IF n >= 623 THEN 11 ELSE IF n >= 68 THEN 7 ELSE IF n >= 39 THEN 5
         ELSE IF n >= 7 THEN 3 ELSE (n - 1) \div 2

(* first phase, step k; indices of the text are 0-based *)
Step1(b, k, n, v, p, q) ==
  LET i0 == (k % n) + 1
      ip == ((k + p) % n) + 1
      iq == ((k + q) % n) + 1
      im == ((k + n - 1) % n) + 1
      r1 == M32(MUL1, T(XorW(XorW(b[i0], b[ip]), b[im])))
      r2 == A32(r1, IF k = 0 THEN N2W(Len(v))
                    ELSE IF k <= Len(v) THEN Add(N2W(k % n), v[k])
                    ELSE N2W(k % n))
      b1 == [b EXCEPT ![ip] = A32(@, r1)]
      b2 == [b1 EXCEPT ![iq] = A32(@, r2)]
  IN [b2 EXCEPT ![i0] = r2]

Step2(b, k, n, p, q) ==
  LET i0 == (k % n) + 1
      ip == ((k + p) % n) + 1
      iq == ((k + q) % n) + 1
      im == ((k + n - 1) % n) + 1
      r3 == M32(MUL2, T(A32(Add(b[i0], b[ip]), b[im])))
      r4 == S32(r3, N2W(k % n))
      b1 == [b EXCEPT ![ip] = XorW(@, r3)]
      b2 == [b1 EXCEPT ![iq] = XorW(@, r4)]
  IN [b2 EXCEPT ![i0] = r4]

Generate(v, n) ==
  IF n = 0 THEN <<>>
  ELSE LET t == TT(n)
           p == (n - t) \div 2
           q == p + t
           m == IF Len(v) + 1 > n THEN Len(v) + 1 ELSE n
           b0 == [i \in 1..n |-> FILL] \o <<>>
           b1 == FoldLeft(LAMBDA b, k : Step1(b, k - 1, n, v, p, q), b0, [k \in 1..m |-> k])
       IN FoldLeft(LAMBDA b, k : Step2(b, k - 1, n, p, q), b1, [k \in 1..n |-> m + k])
=============================================================================
