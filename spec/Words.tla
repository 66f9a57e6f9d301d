------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Unsigned machine words of up to 75 bits, and arithmetic on them.        *)
(*                                                                         *)
(* TLC integers are 32-bit, and the engines of Boost.Random work on 31-,   *)
(* 32-, 48-, 61- and 64-bit words, so a word is a tuple of five 15-bit     *)
(* limbs, least significant first.  The representation is canonical: two   *)
(* words are the same number iff the tuples are equal.  Traces carry words *)
(* as arrays with trailing zero limbs removed; W() pads them.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

LB   == 15            \* bits per limb
BASE == 32768         \* 2^15
MASK == 32767

Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
             16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
             4194304, 8388608, 16777216, 33554432, 67108864, 134217728,
             268435456, 536870912, 1073741824>>
P2(n) == Pow2Tab[n + 1]     \* 2^n for 0 <= n <= 30

L(x, i) == IF i <= Len(x) /\ i >= 1 THEN x[i] ELSE 0
W(x) == <<L(x,1), L(x,2), L(x,3), L(x,4), L(x,5)>>

Zero == <<0, 0, 0, 0, 0>>
One  == <<1, 0, 0, 0, 0>>

(* a TLC integer 0 <= n < 2^31 as a word *)
N2W(n) == <<n % BASE, (n \div BASE) % BASE, n \div (BASE * BASE), 0, 0>>
(* back again; only for words below 2^30 *)
W2N(x) == x[1] + BASE * x[2]

(* numerals written as decimal digits cannot exceed 2^31, so constants are *)
(* written hi * 2^30 + lo *)
HL(hi, lo) == <<lo % BASE, lo \div BASE, hi % BASE, (hi \div BASE) % BASE, hi \div (BASE*BASE)>>

(***************************** comparison **********************************)
Lt(x, y) ==
  IF x[5] # y[5] THEN x[5] < y[5]
  ELSE IF x[4] # y[4] THEN x[4] < y[4]
  ELSE IF x[3] # y[3] THEN x[3] < y[3]
  ELSE IF x[2] # y[2] THEN x[2] < y[2]
  ELSE x[1] < y[1]
Le(x, y) == ~ Lt(y, x)

(***************************** bitwise *************************************)
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4], x[5] ^^ y[5]>>
AndW(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4], x[5] & y[5]>>
OrW(x, y)  == <<x[1] | y[1], x[2] | y[2], x[3] | y[3], x[4] | y[4], x[5] | y[5]>>

(* x * 2^n, cut to 75 bits *)
Shl(x, n) ==
  LET q == n \div LB   r == n % LB
      p == P2(r)       d == P2(LB - r)
      s(i) == ((L(x, i - q) * p) % BASE) + (L(x, i - q - 1) \div d)
  IN IF r = 0 THEN <<L(x,1-q), L(x,2-q), L(x,3-q), L(x,4-q), L(x,5-q)>>
     ELSE <<s(1), s(2), s(3), s(4), s(5)>>
(* floor(x / 2^n) *)
Shr(x, n) ==
  LET q == n \div LB   r == n % LB
      p == P2(r)       d == P2(LB - r)
      s(i) == (L(x, i + q) \div p) + ((L(x, i + q + 1) % p) * d)
  IN IF r = 0 THEN <<L(x,1+q), L(x,2+q), L(x,3+q), L(x,4+q), L(x,5+q)>>
     ELSE <<s(1), s(2), s(3), s(4), s(5)>>
(* x mod 2^n *)
Low(x, n) ==
  LET m(i) == IF n >= LB * i THEN x[i]
              ELSE IF n <= LB * (i - 1) THEN 0
              ELSE x[i] % P2(n - LB * (i - 1))
  IN <<m(1), m(2), m(3), m(4), m(5)>>
PowW(n) == Shl(One, n)                      \* 2^n, n < 75
Bit(x, n) == (L(x, (n \div LB) + 1) \div P2(n % LB)) % 2

(***************************** arithmetic **********************************)
Add(x, y) ==
  LET a1 == x[1] + y[1]
      a2 == x[2] + y[2] + (a1 \div BASE)
      a3 == x[3] + y[3] + (a2 \div BASE)
      a4 == x[4] + y[4] + (a3 \div BASE)
      a5 == x[5] + y[5] + (a4 \div BASE)
  IN <<a1 % BASE, a2 % BASE, a3 % BASE, a4 % BASE, a5 % BASE>>
(* x - y modulo 2^75 *)
Sub(x, y) ==
  LET a1 == x[1] - y[1] + BASE
      a2 == x[2] - y[2] + BASE - 1 + (a1 \div BASE)
      a3 == x[3] - y[3] + BASE - 1 + (a2 \div BASE)
      a4 == x[4] - y[4] + BASE - 1 + (a3 \div BASE)
      a5 == x[5] - y[5] + BASE - 1 + (a4 \div BASE)
  IN <<a1 % BASE, a2 % BASE, a3 % BASE, a4 % BASE, a5 % BASE>>

(* sequences of limbs of any length, for products *)
SAdd1(s, i, v) == [s EXCEPT ![i] = v]
RECURSIVE MulRow(_, _, _, _, _, _)
(* r + a * y shifted by i limbs; j runs over y's limbs *)
MulRow(r, a, y, i, j, c) ==
  IF j > 5 THEN IF i + j - 1 <= Len(r) THEN [r EXCEPT ![i + j - 1] = c] ELSE r
  ELSE LET t == r[i + j - 1] + a * y[j] + c
       IN MulRow([r EXCEPT ![i + j - 1] = t % BASE], a, y, i, j + 1, t \div BASE)
RECURSIVE MulRows(_, _, _, _)
MulRows(r, x, y, i) ==
  IF i > 5 THEN r
  ELSE MulRows(IF x[i] = 0 THEN r ELSE MulRow(r, x[i], y, i, 1, 0), x, y, i + 1)
(* full product: ten limbs *)
MulFull(x, y) == MulRows(<<0,0,0,0,0,0,0,0,0,0>>, x, y, 1)
(* low 75 bits of the product *)
Mul(x, y) ==
  LET z == MulFull(x, y) IN <<z[1], z[2], z[3], z[4], z[5]>>

(* Long division, one 15-bit digit at a time (Knuth's algorithm D).  m is   *)
(* scaled so that its top limb is at least 2^14; then the estimate          *)
(* (two top limbs of r) div (top limb of m) exceeds the digit by at most 2. *)
(* m must be below 2^60.                                                    *)
TopLimb(m) == IF m[5] # 0 THEN 5 ELSE IF m[4] # 0 THEN 4
              ELSE IF m[3] # 0 THEN 3 ELSE IF m[2] # 0 THEN 2 ELSE 1
NormShift(t) == IF t >= 16384 THEN 0 ELSE IF t >= 8192 THEN 1 ELSE IF t >= 4096 THEN 2
   ELSE IF t >= 2048 THEN 3 ELSE IF t >= 1024 THEN 4 ELSE IF t >= 512 THEN 5
   ELSE IF t >= 256 THEN 6 ELSE IF t >= 128 THEN 7 ELSE IF t >= 64 THEN 8
   ELSE IF t >= 32 THEN 9 ELSE IF t >= 16 THEN 10 ELSE IF t >= 8 THEN 11
   ELSE IF t >= 4 THEN 12 ELSE IF t >= 2 THEN 13 ELSE 14
(* a (15-bit) * x, cut to 75 bits *)
MulDigit(a, x) ==
  LET p1 == a * x[1]
      p2 == a * x[2] + (p1 \div BASE)
      p3 == a * x[3] + (p2 \div BASE)
      p4 == a * x[4] + (p3 \div BASE)
      p5 == a * x[5] + (p4 \div BASE)
  IN <<p1 % BASE, p2 % BASE, p3 % BASE, p4 % BASE, p5 % BASE>>
RECURSIVE DivLimbs(_, _, _, _, _, _)
(* digits i, i-1, ..., 1 of n; remainder so far r < m; k = TopLimb(m) *)
DivLimbs(n, m, k, i, r, q) ==
  IF i = 0 THEN <<q, r>>
  ELSE LET r1 == <<n[i], r[1], r[2], r[3], r[4]>>
           e0 == (L(r1, k + 1) * BASE + r1[k]) \div m[k]
           e  == IF e0 > MASK THEN MASK ELSE e0
           t  == MulDigit(e, m)
           qr == IF Le(t, r1) THEN <<e, Sub(r1, t)>>
                 ELSE LET t1 == Sub(t, m)
                      IN IF Le(t1, r1) THEN <<e - 1, Sub(r1, t1)>>
                         ELSE <<e - 2, Sub(r1, Sub(t1, m))>>
       IN DivLimbs(n, m, k, i - 1, qr[2], <<qr[1], q[1], q[2], q[3], q[4]>>)
RECURSIVE SigLimbs(_, _)
SigLimbs(n, i) == IF i = 0 THEN 0 ELSE IF n[i] # 0 THEN i ELSE SigLimbs(n, i - 1)
(* n: a limb sequence of at most ten limbs; m > 0 a word below 2^60 *)
DivMod(n, m) ==
  LET k == TopLimb(m)
      s == NormShift(m[k])
      m2 == MulDigit(P2(s), m)
      (* n * 2^s, one limb longer *)
      p == P2(s)
      d == P2(LB - s)
      len == SigLimbs(n, Len(n)) + 1
      n2 == [i \in 1..len |-> IF s = 0 THEN L(n, i)
                              ELSE ((L(n, i) * p) % BASE) + (L(n, i - 1) \div d)]
      qr == DivLimbs(n2, m2, k, len, Zero, Zero)
  IN <<qr[1], Shr(qr[2], s)>>

Fits30(x) == x[3] = 0 /\ x[4] = 0 /\ x[5] = 0

(* x mod m and x div m for words, m > 0 *)
ModW(x, m) == IF Lt(x, m) THEN x
              ELSE IF Fits30(x) THEN N2W(W2N(x) % W2N(m))
              ELSE DivMod(x, m)[2]
DivW(x, m) == IF Lt(x, m) THEN Zero
              ELSE IF Fits30(x) THEN N2W(W2N(x) \div W2N(m))
              ELSE DivMod(x, m)[1]
MulMod(x, y, m) == LET z == MulFull(x, y) IN DivMod(z, m)[2]
(* x * y + c mod 2^w *)
AddMod(x, y, m) == LET s == Add(x, y) IN IF Lt(s, m) THEN s ELSE ModW(s, m)
SubMod(x, y, m) == IF Lt(x, y) THEN Sub(Add(x, m), y) ELSE Sub(x, y)

(* 32-bit helpers *)
T32 == PowW(32)
Low32(x) == <<x[1], x[2], x[3] % 4, 0, 0>>
=============================================================================
