-------------------------------- MODULE Laws --------------------------------
(* The documented distribution functions, computed in fixed point.  Shape    *)
(* parameters are whole numbers of 64ths and arguments of 128ths; every      *)
(* distribution function is given in standard units (location 0, scale 1).   *)
EXTENDS Fixed
LOCAL Q == 64

(* sums of term ratios in both directions from a term of size 1 *)
LOCAL I50 == Ix(50)
LOCAL UpSum(t0, n, ratio(_, _)) ==
  FoldLeft(LAMBDA acc0, c :
             IF acc0[1] = Zero THEN acc0
             ELSE FoldLeft(LAMBDA acc, i : LET k == (50 * (c - 1)) + i
                                           IN IF acc[1] = Zero \/ k > n THEN acc ELSE LET t == ratio(acc[1], k) IN <<t, FAdd(acc[2], t)>>, acc0, I50),
           <<t0, Zero>>, Ix((n \div 50) + 1))[2]

(* P(X <= x) of the standard normal, x >= 0 *)
LOCAL PhiPos(x) ==
  LET x2 == FMul(x, x)
      s == FAdd(x, UpSum(x, 160, LAMBDA t, k : FDivInt(FMul(t, x2), (2 * k) + 1)))
      den == FMul(ExpPos(FDivInt(x2, 2)), Sqrt(FMulInt(PI, 2)))
  IN FAdd(Half, FDiv(s, den))
(* argument signed *)
Phi(s) == IF FLt(FromInt(6), s[2]) THEN (IF s[1] THEN Zero ELSE One)
          ELSE IF s[1] THEN FSub(One, PhiPos(s[2])) ELSE PhiPos(s[2])

(* the regularised incomplete gamma function P(p/q, x) = sum of             *)
(* x^(a+k) e^-x / Gamma(a+k+1), from the largest term both ways              *)
GammaP(p, q, x) ==
  IF x = Zero THEN Zero ELSE
  LET w == Whole(x) - (p \div q)
      m == IF w < 0 THEN 0 ELSE w
      a == FromRat(p + (m * q), q)
      top == Exp(SSub(SSub(SMul(Pos(a), Ln(x)), Pos(x)), LnGamma(p + ((m + 1) * q), q)))
      up == UpSum(One, 300, LAMBDA t, k : FDivInt(FMulInt(FMul(t, x), q), p + ((m + k) * q)))
      down == UpSum(One, m, LAMBDA t, k : FDiv(FDivInt(FMulInt(t, p + ((m + 1 - k) * q)), q), x))
  IN FMul(top, FAdd(One, FAdd(up, down)))

(* the regularised incomplete beta function I_x(a/q, b/q); y = 1 - x *)
LOCAL BetaLow(a, b, q, x, y) ==
  LET c == SAdd(SMul(Pos(FromRat(a, q)), Ln(x)), SMul(Pos(FromRat(b, q)), Ln(y)))
      g == SSub(SSub(LnGamma(a + b, q), LnGamma(a + q, q)), LnGamma(b, q))
      s == UpSum(One, 1500, LAMBDA t, k : FDivInt(FMulInt(FMul(t, x), a + b + ((k - 1) * q)), a + (k * q)))
  IN FMul(Exp(SAdd(c, g)), FAdd(One, s))
BetaI(a, b, q, x) ==
  LET y == FSub(One, x) IN
  IF x = Zero THEN Zero ELSE IF y = Zero THEN One
  ELSE IF FLe(x, FromRat(a, a + b)) THEN BetaLow(a, b, q, x, y) ELSE FSub(One, BetaLow(b, a, q, y, x))

(* arc tangent of x >= 0 by Euler's series *)
LOCAL AtanLow(x) == LET x2 == FMul(x, x)
                        d == FAdd(One, x2)
                        z == FDiv(x2, d)
                        t0 == FDiv(x, d)
                    IN FAdd(t0, UpSum(t0, 60, LAMBDA t, k : FDivInt(FMulInt(FMul(t, z), 2 * k), (2 * k) + 1)))
Atan(x) == IF x = Zero THEN Zero ELSE IF FLe(x, One) THEN AtanLow(x) ELSE FSub(FDivInt(PI, 2), AtanLow(FDiv(One, x)))

LOCAL Abs(j) == IF j < 0 THEN -j ELSE j
LOCAL X(j) == FromRat(Abs(j), 2 * Q)
LOCAL SX(j) == <<j < 0, X(j)>>
LOCAL SP(p) == <<p < 0, FromRat(Abs(p), Q)>>
LOCAL Up(j, f) == IF j <= 0 THEN Zero ELSE f      \* laws of positive values

(* Poisson weights of mean x from 0 to n, adding up to 1 *)
LOCAL PoissonSeq(x, n) ==
  LET m == IF Whole(x) < n THEN Whole(x) ELSE n
      up == FoldLeft(LAMBDA s, k : Append(s, IF Last(s) = Zero THEN Zero ELSE FDivInt(FMul(Last(s), x), m + k)), <<One>>, Ix(n - m))
      down == FoldLeft(LAMBDA s, k : <<IF s[1] = Zero THEN Zero ELSE FDiv(FMulInt(s[1], m + 1 - k), x)>> \o s, <<>> \o up, Ix(m))
      tot == FoldLeft(LAMBDA a, t : FAdd(a, t), Zero, down)
  IN FoldLeft(LAMBDA s, t : Append(s, FDiv(t, tot)), <<>>, down)

(* sum of the weights w[i] of a sequence up to i, each below 2^18 *)
LOCAL SumTo(w, n) == FoldLeft(LAMBDA a, i : a + w[i], 0, Ix(n))

(* piecewise laws: breakpoints b (128ths), weights w, at j: twice the mass    *)
(* below j times the cell width is a ratio of whole numbers                   *)
LOCAL Twice(b) == FoldLeft(LAMBDA s, x : Append(s, 2 * x), <<>>, b)
LOCAL PConst(b, w, j) ==
  LET n == Len(w)
      part(i) == IF j <= b[i] THEN Zero ELSE IF j >= b[i+1] THEN FromInt(w[i]) ELSE FromRat(w[i] * (j - b[i]), b[i+1] - b[i])
  IN FDivInt(FoldLeft(LAMBDA a, i : FAdd(a, part(i)), Zero, Ix(n)), SumTo(w, n))
LOCAL PLin(b, w, j) ==
  LET n == Len(b) - 1
      area(i) == (w[i] + w[i+1]) * (b[i+1] - b[i])                       \* twice the area of a piece
      part(i) == IF j <= b[i] THEN Zero ELSE IF j >= b[i+1] THEN FromInt(area(i))
                 ELSE LET d == j - b[i]
                          h == b[i+1] - b[i]
                          lin == FromInt(2 * w[i] * d)
                          \* + (w2 - w1) d^2 / h
                          quad == FDivInt(FMulInt(FromInt(d * d), Abs(w[i+1] - w[i])), h)
                      IN IF w[i+1] >= w[i] THEN FAdd(lin, quad) ELSE FSub(lin, quad)
      tot == FoldLeft(LAMBDA a, i : a + area(i), 0, Ix(n))
  IN FDivInt(FoldLeft(LAMBDA a, i : FAdd(a, part(i)), Zero, Ix(n)), tot)

(* distribution functions of the continuous families *)
Cont(fam, p, j) ==
  CASE fam = "exponential" -> Up(j, FSub(One, ExpNeg(X(j))))
    [] fam = "normal" -> Phi(SX(j))
    [] fam = "lognormal" -> Up(j, Phi(LET d == SSub(Ln(X(j)), SP(p[1])) IN <<d[1], FDivInt(FMulInt(d[2], Q), p[2])>>))
    [] fam = "cauchy" -> LET t == FDiv(Atan(X(j)), PI) IN IF j < 0 THEN FSub(Half, t) ELSE FAdd(Half, t)
    [] fam = "weibull" -> Up(j, FSub(One, ExpNeg(FPow(X(j), p[1], Q))))
    [] fam = "extreme_value" -> ExpNeg(Exp(SNeg(SX(j))))
    [] fam = "laplace" -> LET t == FDivInt(ExpNeg(X(j)), 2) IN IF j < 0 THEN t ELSE FSub(One, t)
    [] fam = "triangle" ->
         LET a == 2 * p[1]
             b == 2 * p[2]
             c == 2 * p[3]
         IN IF j <= a THEN Zero ELSE IF j >= c THEN One
            ELSE IF j <= b THEN FDivInt(FDivInt(FromInt((j - a) * (j - a)), c - a), b - a)
            ELSE FSub(One, FDivInt(FDivInt(FromInt((c - j) * (c - j)), c - a), c - b))
    [] fam = "gamma" -> Up(j, GammaP(p[1], Q, X(j)))
    [] fam = "chi_squared" -> Up(j, GammaP(p[1], 2 * Q, FDivInt(X(j), 2)))
    [] fam = "beta" -> IF j >= 2 * Q THEN One ELSE Up(j, BetaI(p[1], p[2], Q, X(j)))
    [] fam = "fisher_f" -> Up(j, BetaI(p[1], p[2], 2 * Q, FDiv(FromInt(p[1] * j), FromInt((p[1] * j) + (p[2] * 2 * Q)))))
    [] fam = "student_t" ->
         LET h == IF j = 0 THEN Half ELSE FDivInt(BetaI(p[1], Q, 2 * Q, FDiv(FromInt(p[1] * 4 * Q), FromInt((p[1] * 4 * Q) + (j * j)))), 2)
         IN IF j < 0 THEN h ELSE FSub(One, h)
    [] fam = "sphere" ->                                               \* one coordinate in p[1] dimensions
         IF j >= 2 * Q THEN One ELSE IF j < -2 * Q THEN Zero
         ELSE IF p[1] = 1 THEN Half ELSE BetaI(p[1] - 1, p[1] - 1, 2, FromRat((2 * Q) + j, 4 * Q))
    [] fam = "non_central_chi_squared" ->
         Up(j, LET n == 120
                   x == FDivInt(X(j), 2)
                   w == PoissonSeq(FromRat(p[2], 2 * Q), n)
                   \* GammaP(a + i) for i = n down to 0 from the terms they have in common
                   term(i) == Exp(SSub(SSub(SMul(Pos(FromRat(p[1] + (i * 2 * Q), 2 * Q)), Ln(x)), Pos(x)), LnGamma(p[1] + ((i + 1) * 2 * Q), 2 * Q)))
                   m == Whole(x)
                   tm == term(m)
                   up == FoldLeft(LAMBDA s, k : Append(s, IF Last(s) = Zero THEN Zero ELSE FDivInt(FMulInt(FMul(Last(s), x), 2 * Q), p[1] + ((m + k) * 2 * Q))), <<tm>>, Ix(n - m))
                   all == FoldLeft(LAMBDA s, k : <<IF s[1] = Zero THEN Zero ELSE FDiv(FDivInt(FMulInt(s[1], p[1] + ((m + 1 - k) * 2 * Q)), 2 * Q), x)>> \o s, <<>> \o up, Ix(m))
               IN FoldLeft(LAMBDA acc, i : LET c == FAdd(acc[1], w[i]) IN <<c, FAdd(acc[2], FMul(all[i], c))>>, <<Zero, Zero>>, Ix(n))[2])
    [] fam = "hyperexponential" ->                                     \* p = weights then rates
         Up(j, LET n == Len(p) \div 2
               IN FSub(One, FDivInt(FoldLeft(LAMBDA a, i : FAdd(a, FMulInt(ExpNeg(FDivInt(FMulInt(X(j), p[n + i]), Q)), p[i])), Zero, Ix(n)), SumTo(p, n))))
    [] fam = "piecewise_constant" -> LET n == Len(p) \div 2 IN PConst(Twice(SubSeq(p, 1, n + 1)), SubSeq(p, n + 2, Len(p)), j)
    [] fam = "piecewise_linear" -> LET n == Len(p) \div 2 IN PLin(Twice(SubSeq(p, 1, n)), SubSeq(p, n + 1, Len(p)), j)

(* A discrete distribution function: c[k - lo + 1] at k for lo <= k < lo +    *)
(* Len(c), nothing below and everything above.                                *)
LOCAL Cum(lo, rel) ==
  LET sums == FoldLeft(LAMBDA s, t : Append(s, IF s = <<>> THEN t ELSE FAdd(Last(s), t)), <<>>, rel)
  IN [lo |-> lo, c |-> FoldLeft(LAMBDA s, t : Append(s, FDiv(t, Last(sums))), <<>>, sums)]
DiscAt(d, k) == IF k < d.lo THEN Zero ELSE IF k >= d.lo + Len(d.c) THEN One ELSE d.c[k - d.lo + 1]
(* relative probabilities of lo..hi by their ratios, from the mode m; what    *)
(* lies outside is below the resolution                                       *)
LOCAL Rel(m, lo, hi, up(_, _), down(_, _)) ==
  LET u == FoldLeft(LAMBDA s, k : Append(s, IF Last(s) = Zero THEN Zero ELSE up(Last(s), m + k)), <<One>>, Ix(hi - m))
  IN Cum(lo, FoldLeft(LAMBDA s, k : <<IF s[1] = Zero THEN Zero ELSE down(s[1], m - k)>> \o s, <<>> \o u, Ix(m - lo)))
LOCAL MinI(a, b) == IF a < b THEN a ELSE b
LOCAL MaxI(a, b) == IF a < b THEN b ELSE a
(* the distribution function of a discrete family; n is a value beyond which *)
(* less than 2^-48 remains                                                    *)
DiscLaw(fam, p, n) ==
  CASE fam = "poisson" ->                                               \* mean p[1]/64
         LET m == p[1] \div Q
             w == 20 + (12 * (ISqrt(m) + 1))
         IN Rel(m, MaxI(0, m - w), m + w, LAMBDA t, k : FDivInt(FDivInt(FMulInt(t, p[1]), Q), k), LAMBDA t, k : FDivInt(FMulInt(FMulInt(t, k + 1), Q), p[1]))
    [] fam = "binomial" ->                                              \* p[1] trials, p[2]/p[3]
         LET b == p[3] - p[2]
             m == MinI(p[1], ((p[1] + 1) * p[2]) \div p[3])
             w == 20 + (12 * (ISqrt(MinI(m, p[1] - m)) + 1))
         IN IF b = 0 THEN [lo |-> p[1], c |-> <<One>>]
            ELSE IF p[2] = 0 THEN [lo |-> 0, c |-> <<One>>]
            ELSE Rel(m, MaxI(0, m - w), MinI(p[1], m + w),
                     LAMBDA t, k : FDivInt(FDivInt(FMulInt(FMulInt(t, p[1] - k + 1), p[2]), k), b),
                     LAMBDA t, k : FDivInt(FDivInt(FMulInt(FMulInt(t, k + 1), b), p[1] - k), p[2]))
    [] fam = "geometric" ->                                             \* success p[1]/p[2], failures before it
         LET step(q) == FDivInt(FMulInt(q, p[2] - p[1]), p[2])
             s == FoldLeft(LAMBDA acc, k : Append(acc, step(Last(acc))), <<step(One)>>, Ix(n))
         IN [lo |-> 0, c |-> FoldLeft(LAMBDA acc, q : Append(acc, FSub(One, q)), <<>>, s)]
    [] fam = "negative_binomial" ->                                     \* failures before success number p[1]
         LET q == p[3] - p[2]
             m == ((p[1] - 1) * q) \div p[2]
         IN Rel(m, 0, n, LAMBDA t, k : FDivInt(FDivInt(FMulInt(FMulInt(t, k + p[1] - 1), q), k), p[3]),
                         LAMBDA t, k : FDivInt(FDivInt(FMulInt(FMulInt(t, k + 1), p[3]), k + p[1]), q))
=============================================================================
