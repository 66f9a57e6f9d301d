------------------------------ MODULE Support -------------------------------
(***************************************************************************)
(* Which values a distribution may return.  Reals are represented by their    *)
(* place in the order of the floating-point numbers: a quadruple <<exponent,  *)
(* three 21-bit groups of the mantissa>>, all of them negated for a negative   *)
(* value, compared from left to right; zero is four zeros, an infinity has the  *)
(* largest exponent and no mantissa, and <<>> is not a number.                 *)
(* An engine hands out a chosen sequence first and ordinary values after that.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zero == <<0, 0, 0, 0>>
OneR == <<16383, 0, 0, 0>>
Inf  == <<32767, 0, 0, 0>>
NegInf == <<-32767, 0, 0, 0>>
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ \/ a[2] < b[2]
                              \/ a[2] = b[2] /\ \/ a[3] < b[3]
                                                \/ a[3] = b[3] /\ a[4] < b[4]
Le(a, b) == ~Lt(b, a)
Number(v) == Len(v) = 4
Finite(v) == Number(v) /\ Lt(NegInf, v) /\ Lt(v, Inf)

(* fam: the family; a: its arguments (lists flattened; n: their lengths);     *)
(* mx: the largest value of the result type; v: a value                       *)
RealLine == {"normal", "cauchy", "laplace", "extreme_value", "student_t"}
HalfLine == {"lognormal", "weibull", "gamma", "fisher_f", "non_central", "chi_squared", "exponential", "hyperexponential"}
HalfInts == {"negative_binomial", "poisson", "geometric"}
InSupport(fam, a, n, mx, v) ==
  /\ Finite(v)
  /\ CASE fam \in RealLine -> TRUE
       [] fam \in HalfLine -> Le(Zero, v)
       [] fam = "beta"     -> Le(Zero, v) /\ Le(v, OneR)
       [] fam = "unit"     -> Le(Zero, v) /\ Lt(v, OneR)
       [] fam = "uniform_real" -> Le(a[1], v) /\ Lt(v, a[2])
       [] fam = "triangle" -> Le(a[1], v) /\ Le(v, a[3])
       [] fam = "uniform_int" -> Le(a[1], v) /\ Le(v, a[2])
       [] fam = "bernoulli" -> v = (IF a[1] = Zero THEN Zero ELSE IF a[1] = OneR THEN OneR ELSE IF v = Zero THEN Zero ELSE OneR)
       [] fam = "binomial" -> Le(Zero, v) /\ Le(v, a[1]) /\ (a[2] = Zero => v = Zero) /\ (a[2] = OneR => v = a[1])
       [] fam = "geometric" /\ a[1] = OneR -> v = Zero
       [] fam = "negative_binomial" /\ a[2] = OneR -> v = Zero
       [] fam \in HalfInts -> Le(Zero, v) /\ Le(v, mx)
       [] fam = "geometric1" -> Le(OneR, v) /\ Le(v, mx)
       (* v is paired with its weight: an index of no weight never occurs *)
       [] fam = "piecewise_constant" -> /\ Le(a[1], v) /\ Lt(v, a[n])
                                        /\ \E i \in 1..(n - 1) : Le(a[i], v) /\ Lt(v, a[i + 1]) /\ Lt(Zero, a[n + i])
       [] fam = "piecewise_linear" -> /\ Le(a[1], v) /\ Lt(v, a[n])
                                      /\ \E i \in 1..(n - 1) : Le(a[i], v) /\ Lt(v, a[i + 1]) /\ (Lt(Zero, a[n + i]) \/ Lt(Zero, a[n + i + 1]))
(* an index, as an integer, with the weights *)
IndexOk(a, i) == i \in 0..(Len(a) - 1) /\ Lt(Zero, a[i + 1])
(* a point, coordinates in 1/16384: of length one up to rounding *)
RECURSIVE SumSq(_, _)
SumSq(p, k) == IF k = 0 THEN 0 ELSE p[k] * p[k] + SumSq(p, k - 1)
OnSphere(p, dim) == /\ Len(p) = dim
                    /\ \A i \in DOMAIN p : p[i] \in -16385..16385
                    /\ dim > 0 => SumSq(p, dim) \in (268435456 - 17000 * dim)..(268435456 + 17000 * dim)
=============================================================================
