------------------------------ MODULE Engines ------------------------------
(***************************************************************************)
(* The pseudo-random number engines of Boost.Random as state machines.      *)
(*                                                                         *)
(* An engine is a descriptor d (a record; d.k is the family) and a state.   *)
(* For every family the module gives                                       *)
(*    MinOf(d), MaxOf(d)     the bounds of the values                       *)
(*    InitDefault/Int/Words/Seq   the state each way of seeding leads to    *)
(*    Draw1(d, st)           <<value, next state>>                          *)
(*    DrawN(d, st, n)        <<n values, next state>>                       *)
(*    JumpOK/Jump            closed forms for very large skips              *)
(* The recurrences are those of the literature (Lehmer; Matsumoto and       *)
(* Nishimura; Marsaglia and Zaman; Knuth; Tausworthe/L'Ecuyer; Eichenauer   *)
(* and Lehn; Savvidy; Steele, Lea and Flood) and of the C++ standard; they  *)
(* do not mirror the buffers of the implementation: a state here is always  *)
(* "the last n words", oldest first.                                        *)
(*                                                                         *)
(* Families                                                                *)
(*  lcg     a c m w      x' = a x + c mod m   (m = 0: mod 2^w)              *)
(*  rand48               48-bit lcg, top 31 bits returned                   *)
(*  mt      w n m r a u d s b t c l f                                       *)
(*  swc     w s r        x(i) = x(i-s) - x(i-r) - carry mod 2^w             *)
(*  lfib    w p q        x(i) = x(i-p) + x(i-q) mod 2^w                     *)
(*  lfsr    w kk q s     Tausworthe                                         *)
(*  inv     a b p        x' = a inverse(x) + b mod p                        *)
(*  mixmax  (N = 17, multiplier 2^36, modulo 2^61 - 1)                      *)
(*  split   splitmix64                                                      *)
(*  script  vals lo hi   a base engine that returns given values            *)
(*  discard p r base     keep r of every p values                           *)
(*  shuffle n base       Bays-Durham                                        *)
(*  addc    b1 b2        L'Ecuyer's combination                             *)
(*  xorc    b1 s1 b2 s2                                                     *)
(*  ind     w base       independent bits ([rand.adapt.ibits])              *)
(***************************************************************************)
EXTENDS SeedSeq, Json, TLC, FiniteSets

(* coefficients of x^(2^(511+b)) modulo the characteristic polynomial of the *)
(* MIXMAX matrix, computed from the matrix by lib/catalog.py                 *)
MixSkip == JsonDeserialize("mixmax_skip.json")

(*------------------------------ arithmetic -------------------------------*)
T60 == PowW(60)
(* x + y modulo m for x, y < m *)
AddMod2(x, y, m) == LET t == Add(x, y) IN IF Lt(t, m) THEN t ELSE Sub(t, m)
(* floor(x / n) for an integer n < 2^15 *)
DivSmall(x, n) ==
  LET q5 == x[5] \div n                         r5 == x[5] % n
      t4 == (r5 * BASE) + x[4]
      t3 == ((t4 % n) * BASE) + x[3]
      t2 == ((t3 % n) * BASE) + x[2]
      t1 == ((t2 % n) * BASE) + x[1]
  IN <<t1 \div n, t2 \div n, t3 \div n, t4 \div n, q5>>
(* double and add, for moduli of 2^60 or more *)
BitMulMod(x, y, m) ==
  FoldLeft(LAMBDA acc, i :
      LET a2 == AddMod2(acc, acc, m)
      IN IF Bit(y, 65 - i) = 1 THEN AddMod2(a2, x, m) ELSE a2, Zero, [i \in 1..65 |-> i])
BitMod(x, m) ==
  FoldLeft(LAMBDA acc, i :
      LET a2 == AddMod2(acc, acc, m)
      IN IF Bit(x, 75 - i) = 1 THEN AddMod2(a2, One, m) ELSE a2, Zero, [i \in 1..75 |-> i])
IsPow2(m) == AndW(m, Sub(m, One)) = Zero /\ m # Zero
RECURSIVE Log2From(_, _)
Log2From(m, i) == IF Bit(m, i) = 1 THEN i ELSE Log2From(m, i - 1)
Log2(m) == Log2From(m, 74)                    \* floor, m > 0
CeilLog2(m) == IF IsPow2(m) THEN Log2(m) ELSE Log2(m) + 1
ModAny(x, m) == IF Lt(x, m) THEN x
                ELSE IF IsPow2(m) THEN Low(x, Log2(m))
                ELSE IF Lt(m, T60) THEN ModW(x, m)
                ELSE BitMod(x, m)
MulModAny(x, y, m) == IF IsPow2(m) THEN Low(Mul(x, y), Log2(m))
                      ELSE IF Lt(m, T60) THEN MulMod(x, y, m)
                      ELSE BitMulMod(x, y, m)
(* a x + c modulo m; m = 0 stands for 2^w *)
Affine(a, x, c, m, w) ==
  IF m = Zero THEN Low(Add(Mul(a, x), c), w)
  ELSE IF IsPow2(m) THEN Low(Add(Mul(a, x), c), Log2(m))
  ELSE AddMod2(MulModAny(a, x, m), c, m)

(* inverse modulo a prime below 2^31, by Euclid's algorithm on integers; 0 -> 0 *)
N31(x) == x[1] + (BASE * x[2]) + (1073741824 * x[3])
RECURSIVE Euclid(_, _, _, _, _)
(* r0 = t0 x, r1 = t1 x (mod p) with r0 > r1 *)
Euclid(r0, r1, t0, t1, p) ==
  IF r1 = 0 THEN t0
  ELSE LET q == r0 \div r1 IN Euclid(r1, r0 - (q * r1), t1, t0 - (q * t1), p)
InvMod(x, p) ==
  IF x = Zero THEN Zero
  ELSE LET pi == N31(p)
           t == Euclid(pi, N31(x), 0, 1, pi)
       IN N2W(IF t < 0 THEN t + pi ELSE t)

MaskW(w) == Sub(PowW(w), One)
WPW(w) == (w + 31) \div 32                    \* 32-bit seed words per w-bit word

Force(f) == f \o <<>>                         \* makes TLC evaluate a sequence once
Upto(n) == [i \in 1..n |-> i]

(*------------------------------- bounds ----------------------------------*)
RECURSIVE MinOf(_)
RECURSIVE MaxOf(_)
MinOf(d) ==
  CASE d.k = "lcg" -> IF d.c = Zero THEN One ELSE Zero
    [] d.k = "inv" -> IF d.b = Zero THEN One ELSE Zero
    [] d.k = "script" -> d.lo
    [] d.k \in {"discard", "shuffle"} -> MinOf(d.base)
    [] d.k = "addc" -> One
    [] d.k = "xorc" -> LET x == MinOf(d.b1) y == MinOf(d.b2) IN IF Lt(x, y) THEN x ELSE y
    [] OTHER -> Zero
MaxOf(d) ==
  CASE d.k = "lcg" -> IF d.m = Zero THEN MaskW(d.w) ELSE Sub(d.m, One)
    [] d.k = "rand48" -> MaskW(31)
    [] d.k \in {"mt", "swc", "lfib", "lfsr", "ind"} -> MaskW(d.w)
    [] d.k = "inv" -> Sub(d.p, One)
    [] d.k = "mixmax" -> MaskW(61)
    [] d.k = "split" -> MaskW(64)
    [] d.k = "script" -> d.hi
    [] d.k \in {"discard", "shuffle"} -> MaxOf(d.base)
    [] d.k = "addc" -> Sub(d.b1.m, One)
    [] d.k = "xorc" -> LET x == MaxOf(d.b1) y == MaxOf(d.b2) IN IF Lt(x, y) THEN y ELSE x

(*---------------------------- one step -----------------------------------*)
R48A == HL(23, 518841965)       \* 0x5DEECE66D = 25214903917
ASSUME R48A = Add(Shl(N2W(5), 32), Add(Shl(N2W(57068), 16), N2W(58989)))
R48Step(x) == Low(Add(Mul(R48A, x), N2W(11)), 48)

MtTwist(d, x0, x1, xm) ==
  LET y == OrW(Shl(Shr(x0, d.r), d.r), Low(x1, d.r))
  IN XorW(XorW(xm, Shr(y, 1)), IF Bit(y, 0) = 1 THEN d.a ELSE Zero)
MtTemper(d, x) ==
  LET z1 == XorW(x, AndW(Shr(x, d.u), d.d))
      z2 == Low(XorW(z1, AndW(Shl(z1, d.s), d.b)), d.w)
      z3 == Low(XorW(z2, AndW(Shl(z2, d.t), d.c)), d.w)
  IN XorW(z3, Shr(z3, d.l))

LfsrStep(d, x) ==
  LET b == Shr(Low(XorW(Shl(x, d.q), x), d.w), d.kk - d.s)
      hi == Shl(Shr(x, d.w - d.kk), d.w - d.kk)
  IN XorW(Low(Shl(hi, d.s), d.w), b)

HexW(a, b, c, e) == Add(Add(Shl(N2W(a), 48), Shl(N2W(b), 32)), Add(Shl(N2W(c), 16), N2W(e)))
SMG == HexW(40503, 31161, 32586, 31765)       \* 9E37 79B9 7F4A 7C15
SMA == HexW(48984, 18285, 7396, 58809)        \* BF58 476D 1CE4 E5B9
SMB == HexW(38096, 18875, 4913, 4587)         \* 94D0 49BB 1331 11EB
SMD == HexW(41316, 46140, 36707, 18963)       \* A164 B43C 8F63 4A13
SplitMix(s) ==
  LET z1 == Low(Mul(XorW(s, Shr(s, 30)), SMA), 64)
      z2 == Low(Mul(XorW(z1, Shr(z1, 27)), SMB), 64)
  IN XorW(z2, Shr(z2, 31))

(* MIXMAX: the whole vector is multiplied by the matrix; the components are *)
(* residues modulo 2^61-1                                                    *)
M61 == MaskW(61)
A61(x, y) == LET s == Add(x, y) IN IF Lt(s, M61) THEN s ELSE LET t == Sub(s, M61) IN IF Lt(t, M61) THEN t ELSE ModW(t, M61)
Rot36(x) == A61(Low(Shl(x, 36), 61), Shr(x, 25))          \* 2^36 x
MulModM61(x, y) ==
  LET z == MulFull(x, y)
  IN A61(Low(<<z[1], z[2], z[3], z[4], z[5]>>, 61), Shr(<<z[5], z[6], z[7], z[8], z[9]>>, 1))
Sum61(v) == FoldLeft(LAMBDA s, i : A61(s, v[i]), Zero, Upto(Len(v)))
(* acc: <<new vector, partial sum of the old one, last new component>> *)
MixStep(v) ==
  LET s == Sum61(v)
  IN FoldLeft(LAMBDA acc, i :
        LET p == A61(acc[2], v[i])
            x == A61(A61(acc[3], p), Rot36(acc[2]))
        IN <<Append(acc[1], x), p, x>>,
     <<<<s>>, Zero, s>>, [i \in 1..16 |-> i + 1])[1]
(* sum over j of coeff[j] * A^(j-1) v *)
MixApply(coeff, v) ==
  FoldLeft(LAMBDA acc, j :
      <<Force([i \in 1..17 |-> A61(acc[1][i], MulModM61(coeff[j], acc[2][i]))]), MixStep(acc[2])>>,
    <<[i \in 1..17 |-> Zero] \o <<>>, v>>, Upto(17))[1]
MixUnit == [i \in 1..17 |-> IF i = 1 THEN One ELSE Zero] \o <<>>
(* four 32-bit identifiers, cluster machine run stream: skip 2^512 times the *)
(* 128-bit number they form                                                  *)
MixSeed(ids) ==
  LET bits == [b \in 1..128 |-> Bit(ids[4 - ((b - 1) \div 32)], (b - 1) % 32)]
  IN FoldLeft(LAMBDA v, b : IF bits[b] = 1 THEN MixApply(MixSkip[b], v) ELSE v, MixUnit, Upto(128))

(* parameters of independent_bits, as in the standard *)
IndParams(d) ==
  LET range == Sub(MaxOf(d.base), MinOf(d.base))
      R == Add(range, One)
      m == Log2(R)
      P(n) == LET w0 == d.w \div n
                  n0 == n - (d.w % n)
                  y0 == Shl(Shr(R, w0), w0)
                  y1 == Shl(Shr(R, w0 + 1), w0 + 1)
              IN [n |-> n, w0 |-> w0, n0 |-> n0, y0 |-> y0, y1 |-> y1]
      n1 == (d.w + m - 1) \div m
      p1 == P(n1)
      \* R - y0 > floor(y0 / n)
      bad == Lt(DivSmall(p1.y0, n1), Sub(R, p1.y0))
  IN IF bad THEN P(n1 + 1) ELSE p1

RECURSIVE Draw1(_, _)
(* floor(n off / R) for off < R <= 2^64, n <= 1024 *)
MulDivSmall(n, off, R) ==
  IF IsPow2(R) THEN W2N(Shr(Mul(N2W(n), off), Log2(R)))
  ELSE IF Lt(R, T60) THEN W2N(DivMod(MulFull(N2W(n), off), R)[1])
  ELSE Cardinality({k \in 1..(n - 1) : Le(Mul(N2W(k), R), Mul(N2W(n), off))})
(* draw from base until the value is below the limit: <<value, state>> *)
RECURSIVE DrawBelow(_, _, _)
DrawBelow(bd, bst, lim) ==
  LET r == Draw1(bd, bst)
      v == Sub(r[1], MinOf(bd))
  IN IF Lt(v, lim) THEN <<v, r[2]>> ELSE DrawBelow(bd, r[2], lim)

Draw1(d, st) ==
  CASE d.k = "lcg" -> LET x == Affine(d.a, st, d.c, d.m, d.w) IN <<x, x>>
    [] d.k = "rand48" -> LET x == R48Step(st) IN <<Shr(x, 17), x>>
    [] d.k = "mt" ->
         LET x == MtTwist(d, st[1], st[2], st[d.m + 1])
         IN <<MtTemper(d, x), Append(Tail(st), x)>>
    [] d.k = "swc" ->
         LET xs == st.w[d.r - d.s + 1]
             xr == st.w[1]
             t  == IF st.c = 1 THEN Add(xr, One) ELSE xr
             x  == Low(Sub(xs, t), d.w)
         IN <<x, [w |-> Append(Tail(st.w), x), c |-> IF Lt(xs, t) THEN 1 ELSE 0]>>
    [] d.k = "lfib" ->
         LET x == Low(Add(st[1], st[d.p - d.q + 1]), d.w) IN <<x, Append(Tail(st), x)>>
    [] d.k = "lfsr" -> LET x == LfsrStep(d, st) IN <<x, x>>
    [] d.k = "inv" -> LET x == Affine(d.a, InvMod(st, d.p), d.b, d.p, 0) IN <<x, x>>
    [] d.k = "mixmax" ->
         \* st.i: index of the next component; the first is never returned
         IF st.i <= 17 THEN <<st.v[st.i], [st EXCEPT !.i = @ + 1]>>
         ELSE LET v == MixStep(st.v) IN <<v[2], [v |-> v, i |-> 3]>>
    [] d.k = "split" -> LET s == Low(Add(st, SMG), 64) IN <<SplitMix(s), s>>
    [] d.k = "script" -> <<d.vals[(st % Len(d.vals)) + 1], st + 1>>
    [] d.k = "discard" ->
         LET st1 == IF st.n < d.r THEN st
                    ELSE [b |-> FoldLeft(LAMBDA s, i : Draw1(d.base, s)[2], st.b, Upto(d.p - d.r)), n |-> 0]
             r == Draw1(d.base, st1.b)
         IN <<r[1], [b |-> r[2], n |-> st1.n + 1]>>
    [] d.k = "shuffle" ->
         LET off == Sub(st.y, MinOf(d.base))
             R   == Add(Sub(MaxOf(d.base), MinOf(d.base)), One)
             j   == MulDivSmall(d.n, off, R) + 1
             y   == st.v[j]
             r   == Draw1(d.base, st.b)
         IN <<y, [b |-> r[2], v |-> [st.v EXCEPT ![j] = r[1]], y |-> y]>>
    [] d.k = "addc" ->
         LET r1 == Draw1(d.b1, st.b1)
             r2 == Draw1(d.b2, st.b2)
             v  == IF Lt(r2[1], r1[1]) THEN Sub(r1[1], r2[1])
                   ELSE Sub(Add(r1[1], Sub(d.b1.m, One)), r2[1])
         IN <<v, [b1 |-> r1[2], b2 |-> r2[2]]>>
    [] d.k = "xorc" ->
         LET r1 == Draw1(d.b1, st.b1)
             r2 == Draw1(d.b2, st.b2)
         IN <<Low(XorW(Shl(r1[1], d.s1), Shl(r2[1], d.s2)), d.w), [b1 |-> r1[2], b2 |-> r2[2]]>>
    [] d.k = "ind" ->
         LET P == IndParams(d)
         IN FoldLeft(LAMBDA acc, k :
              LET wk == IF k <= P.n0 THEN P.w0 ELSE P.w0 + 1
                  u  == DrawBelow(d.base, acc[2], IF k <= P.n0 THEN P.y0 ELSE P.y1)
              IN <<Add(Shl(acc[1], wk), Low(u[1], wk)), u[2]>>,
            <<Zero, st>>, Upto(P.n))

(*--------------------------- many steps ----------------------------------*)
RECURSIVE GrowMt(_, _, _)
(* H: the words so far (window first); appends until it has length len *)
GrowMt(d, H, len) ==
  IF Len(H) >= len THEN H
  ELSE LET h == Len(H)
           k == IF len - h < d.n - d.m THEN len - h ELSE d.n - d.m
           kk == IF d.n = d.m THEN 1 ELSE k
       IN GrowMt(d, H \o [i \in 1..kk |-> MtTwist(d, H[h - d.n + i], H[h - d.n + i + 1], H[h - d.n + d.m + i])], len)
RECURSIVE GrowLf(_, _, _)
GrowLf(d, H, len) ==
  IF Len(H) >= len THEN H
  ELSE LET h == Len(H)
           k == IF len - h < d.q THEN len - h ELSE d.q
       IN GrowLf(d, H \o [i \in 1..k |-> Low(Add(H[h - d.p + i], H[h - d.q + i]), d.w)], len)

DrawN(d, st, n) ==
  IF n = 0 THEN <<<<>>, st>>
  ELSE IF d.k = "mt" THEN
    LET H == GrowMt(d, st, d.n + n)
    IN <<Force([i \in 1..n |-> MtTemper(d, H[d.n + i])]), SubSeq(H, n + 1, d.n + n)>>
  ELSE IF d.k = "lfib" THEN
    LET H == GrowLf(d, st, d.p + n)
    IN <<SubSeq(H, d.p + 1, d.p + n), SubSeq(H, n + 1, d.p + n)>>
  ELSE FoldLeft(LAMBDA acc, i : LET r == Draw1(d, acc[2]) IN <<Append(acc[1], r[1]), r[2]>>,
                <<<<>>, st>>, Upto(n))
SkipN(d, st, n) ==
  IF n = 0 THEN st
  ELSE IF d.k \in {"mt", "lfib"} THEN DrawN(d, st, n)[2]
  ELSE FoldLeft(LAMBDA s, i : Draw1(d, s)[2], st, Upto(n))

(* closed forms: z is a word *)
(* A Mersenne twister step is linear over GF(2) on the p = n w - r bits that *)
(* matter; for small ones the state is one integer, the step a list of the    *)
(* images of the unit vectors, and z steps a product of repeated squares.     *)
MtBits(d) == d.n * d.w - d.r
MtEnc(d, st) == FoldLeft(LAMBDA acc, i : acc + (IF i = 1 THEN W2N(st[1]) \div P2(d.r) ELSE W2N(st[i]) * P2(d.w * (i - 1) - d.r)), 0, [i \in 1..d.n |-> i])
MtDec(d, v) == Force([i \in 1..d.n |-> N2W(IF i = 1 THEN (v % P2(d.w - d.r)) * P2(d.r) ELSE (v \div P2(d.w * (i - 1) - d.r)) % P2(d.w))])
GfApply(M, v) == FoldLeft(LAMBDA acc, i : IF (v \div P2(i - 1)) % 2 = 1 THEN acc ^^ M[i] ELSE acc, 0, [i \in DOMAIN M |-> i])
GfSquare(M) == Force([i \in DOMAIN M |-> GfApply(M, M[i])])
MtMatrix(d) == Force([i \in 1..MtBits(d) |-> MtEnc(d, LET s == MtDec(d, P2(i - 1)) IN Append(Tail(s), MtTwist(d, s[1], s[2], s[d.m + 1])))])
MtJump(d, st, z) ==
  MtDec(d, FoldLeft(LAMBDA acc, i : <<GfSquare(acc[1]), IF Bit(z, i) = 1 THEN GfApply(acc[1], acc[2]) ELSE acc[2]>>,
                    <<MtMatrix(d), MtEnc(d, st)>>, [i \in 1..64 |-> i - 1])[2])
RECURSIVE JumpOK(_)
JumpOK(d) == \/ d.k \in {"lcg", "rand48", "split"}
             \/ d.k = "mt" /\ MtBits(d) <= 28
             \/ d.k \in {"addc", "xorc"} /\ JumpOK(d.b1) /\ JumpOK(d.b2)
(* the affine map f = <<a, c>> composed with itself z times, by squaring *)
AffBits(f, z, m, w) ==
  FoldLeft(LAMBDA acc, i :
      LET sq == <<Affine(acc[1], acc[1], Zero, m, w), Affine(acc[1], acc[2], acc[2], m, w)>>
      IN IF Bit(z, 64 - i) = 1 THEN <<Affine(f[1], sq[1], Zero, m, w), Affine(f[1], sq[2], f[2], m, w)>> ELSE sq,
    <<One, Zero>>, Upto(64))
RECURSIVE Jump(_, _, _)
Jump(d, st, z) ==
  CASE d.k = "lcg" -> LET g == AffBits(<<d.a, d.c>>, z, d.m, d.w)
                      IN Affine(g[1], st, g[2], d.m, d.w)
    [] d.k = "rand48" -> LET g == AffBits(<<R48A, N2W(11)>>, z, PowW(48), 48)
                         IN Affine(g[1], st, g[2], PowW(48), 48)
    [] d.k = "split" -> Low(Add(st, Mul(z, SMG)), 64)
    [] d.k = "mt" -> MtJump(d, st, z)
    [] d.k \in {"addc", "xorc"} -> [b1 |-> Jump(d.b1, st.b1, z), b2 |-> Jump(d.b2, st.b2, z)]

(*------------------------------ seeding ----------------------------------*)
(* number of 32-bit words an iterator seeding consumes *)
RECURSIVE NWords(_)
NWords(d) ==
  CASE d.k = "lcg" -> ((IF d.m = Zero THEN d.w ELSE CeilLog2(d.m)) + 31) \div 32
    [] d.k = "inv" -> (CeilLog2(d.p) + 31) \div 32
    [] d.k = "rand48" -> 2
    [] d.k = "lfsr" -> WPW(d.w)
    [] d.k = "mt" -> d.n * WPW(d.w)
    [] d.k = "swc" -> d.r * WPW(d.w)
    [] d.k = "lfib" -> d.p * WPW(d.w)
    [] d.k = "mixmax" -> 4
    [] d.k \in {"discard", "shuffle", "ind"} -> NWords(d.base)
    [] d.k \in {"addc", "xorc"} -> NWords(d.b1) + NWords(d.b2)
    [] d.k = "split" -> 2
(* the number a run of 32-bit words ws[j..j+k-1] stands for, least significant first *)
RECURSIVE Concat32(_, _, _)
Concat32(ws, j, k) == IF k = 0 THEN Zero ELSE Add(ws[j], Shl(Concat32(ws, j + 1, k - 1), 32))
Array(ws, p, n, w) == Force([i \in 1..n |-> Low(Concat32(ws, p + ((i - 1) * WPW(w)), WPW(w)), w)])

MtNorm(d, x) ==
  LET x1 == [x EXCEPT ![1] = Shl(Shr(@, d.r), d.r)]
  IN IF \A i \in 1..d.n : x1[i] = Zero THEN [x1 EXCEPT ![1] = PowW(d.w - 1)] ELSE x1
SwcFrom(d, x) == [w |-> x, c |-> IF x[d.r] = Zero THEN 1 ELSE 0]

LcgFix(d, x) == IF d.c = Zero /\ x = Zero THEN One ELSE x
InvFix(d, x) == IF d.b = Zero /\ x = Zero THEN One ELSE x
LcgFrom(d, v) == LcgFix(d, IF d.m = Zero THEN Low(v, d.w) ELSE ModAny(v, d.m))
InvFrom(d, v) == InvFix(d, ModAny(v, d.p))
LfsrFrom(d, v) == LET x == Low(v, d.w) IN IF Lt(x, PowW(d.w - d.kk)) THEN Add(x, PowW(d.w - d.kk)) ELSE x

(* adaptors complete their state from the base engine's *)
AfterBase(d, b) ==
  CASE d.k = "discard" -> [b |-> b, n |-> 0]
    [] d.k = "shuffle" -> LET r == DrawN(d.base, b, d.n + 1)
                          IN [b |-> r[2], v |-> SubSeq(r[1], 1, d.n), y |-> r[1][d.n + 1]]
    [] d.k = "ind" -> b

(* from the words ws[p...] *)
RECURSIVE InitWords(_, _, _)
InitWords(d, ws, p) ==
  CASE d.k = "lcg" -> LcgFrom(d, Concat32(ws, p, NWords(d)))
    [] d.k = "inv" -> InvFrom(d, Concat32(ws, p, NWords(d)))
    [] d.k = "rand48" -> Low(Concat32(ws, p, 2), 48)
    [] d.k = "lfsr" -> LfsrFrom(d, Concat32(ws, p, NWords(d)))
    [] d.k = "mt" -> MtNorm(d, Array(ws, p, d.n, d.w))
    [] d.k = "swc" -> SwcFrom(d, Array(ws, p, d.r, d.w))
    [] d.k = "lfib" -> Array(ws, p, d.p, d.w)
    [] d.k = "mixmax" -> [v |-> MixSeed(SubSeq(ws, p, p + 3)), i |-> 2]
    [] d.k \in {"discard", "shuffle", "ind"} -> AfterBase(d, InitWords(d.base, ws, p))
    [] d.k \in {"addc", "xorc"} -> [b1 |-> InitWords(d.b1, ws, p), b2 |-> InitWords(d.b2, ws, p + NWords(d.b1))]

(* the words x1, x2, ... of the Lehmer generator a mod m, by doubling *)
RECURSIVE LehmerGrow(_, _, _, _)
LehmerGrow(H, ap, m, n) ==       \* ap = a^Len(H) mod m
  IF Len(H) >= n THEN SubSeq(H, 1, n)
  ELSE LehmerGrow(H \o [i \in 1..Len(H) |-> MulMod(ap, H[i], m)], MulMod(ap, ap, m), m, n)
Lehmer(a, m, s, n) == LehmerGrow(<<MulMod(a, s, m)>>, a, m, n)
M31 == MaskW(31)
LfWords(v, n) == LET s == ModW(Low32(v), M31) IN Lehmer(N2W(16807), M31, IF s = Zero THEN One ELSE s, n)
M563 == N2W(2147483563)
SwcDefault == N2W(19780503)
SwcWords(v, n) == LET v1 == IF v = Zero THEN SwcDefault ELSE v
                      s == ModW(Low32(v1), M563)
                  IN Lehmer(N2W(40014), M563, IF s = Zero THEN One ELSE s, n)

MtInt(d, v) ==
  FoldLeft(LAMBDA x, i :
      LET y == x[Len(x)] IN Append(x, Low(Add(Mul(d.f, XorW(y, Shr(y, d.w - 2))), N2W(i)), d.w)),
    <<Low(v, d.w)>>, Upto(d.n - 1))

(* v: the value after conversion to the engine's seed type *)
RECURSIVE InitInt(_, _)
InitInt(d, v) ==
  CASE d.k = "lcg" -> LcgFrom(d, v)
    [] d.k = "inv" -> InvFrom(d, v)
    [] d.k = "rand48" -> Add(Shl(Low32(v), 16), N2W(13070))     \* 0x330e
    [] d.k = "lfsr" -> LfsrFrom(d, v)
    [] d.k = "mt" -> MtNorm(d, MtInt(d, v))
    [] d.k = "swc" -> SwcFrom(d, Array(SwcWords(v, d.r * WPW(d.w)), 1, d.r, d.w))
    [] d.k = "lfib" -> Array(LfWords(v, d.p * WPW(d.w)), 1, d.p, d.w)
    [] d.k = "mixmax" -> [v |-> MixSeed(<<Zero, Zero, Shr(v, 32), Low32(v)>>), i |-> 2]
    [] d.k = "split" -> IF v = Zero THEN SMD ELSE v
    [] d.k \in {"discard", "shuffle", "ind"} -> AfterBase(d, InitInt(d.base, v))
    [] d.k \in {"addc", "xorc"} -> [b1 |-> InitInt(d.b1, v), b2 |-> InitInt(d.b2, v)]

(* v: a 64-bit two's complement value; the seed type has d.sb bits and is signed *)
(* iff d.sg (such engines are lcg or inv); negative seeds wrap into [0, m)       *)
SeedInt(d, v) ==
  LET x == Low(v, d.sb)
      m == IF d.k = "lcg" THEN d.m ELSE d.p
      a == ModAny(Sub(PowW(d.sb), x), m)
      y == IF a = Zero THEN Zero ELSE Sub(m, a)
  IN IF d.sg /\ Bit(x, d.sb - 1) = 1
     THEN (IF d.k = "lcg" THEN LcgFix(d, y) ELSE InvFix(d, y))
     ELSE InitInt(d, x)

RECURSIVE InitDefault(_)
InitDefault(d) ==
  CASE d.k \in {"lcg", "inv", "rand48", "mixmax"} -> InitInt(d, One)
    [] d.k = "lfsr" -> InitInt(d, N2W(341))
    [] d.k = "mt" -> InitInt(d, N2W(5489))
    [] d.k = "swc" -> InitInt(d, SwcDefault)
    [] d.k = "lfib" -> InitInt(d, N2W(331))
    [] d.k = "split" -> InitInt(d, Zero)
    [] d.k \in {"discard", "shuffle", "ind"} -> AfterBase(d, InitDefault(d.base))
    [] d.k \in {"addc", "xorc"} -> [b1 |-> InitDefault(d.b1), b2 |-> InitDefault(d.b2)]

(* arithmetic seed words used to seed very large engines: j * 2654435769 + s *)
GOLD == HexW(0, 0, 40503, 31161)
ArithWords(s, n) == Force([j \in 1..n |-> Low32(Add(Mul(N2W(j), GOLD), s))])
(* a seed sequence: a seed_seq with stored words g.v, or an object that hands *)
(* out the arithmetic words starting at g.s, or one that hands out g.v itself  *)
Gen(g, n) == CASE g.t = "seq" -> Generate(g.v, n)
               [] g.t = "arith" -> ArithWords(g.s, n)
               [] g.t = "words" -> SubSeq(g.v, 1, n)
(* g: the seed sequence *)
RECURSIVE InitSeq(_, _)
InitSeq(d, g) ==
  CASE d.k = "lcg" -> LcgFrom(d, Concat32(Gen(g, NWords(d) + 3), 4, NWords(d)))
    [] d.k = "inv" -> InvFrom(d, Concat32(Gen(g, NWords(d) + 3), 4, NWords(d)))
    [] d.k = "rand48" -> Low(Concat32(Gen(g, 5), 4, 2), 48)
    [] d.k = "lfsr" -> LfsrFrom(d, Concat32(Gen(g, NWords(d) + 3), 4, NWords(d)))
    [] d.k = "split" -> LET ws == Gen(g, 2) IN Add(Shl(ws[1], 32), ws[2])
    [] d.k \in {"mt", "swc", "lfib", "mixmax"} -> InitWords(d, Gen(g, NWords(d)), 1)
    [] d.k \in {"discard", "shuffle", "ind"} -> AfterBase(d, InitSeq(d.base, g))
    [] d.k \in {"addc", "xorc"} -> [b1 |-> InitSeq(d.b1, g), b2 |-> InitSeq(d.b2, g)]

=============================================================================
