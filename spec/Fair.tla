------------------------------- MODULE Fair --------------------------------
(* What it means for a draw that consumes independent, equally likely engine *)
(* values u1, u2, ... in 0..b-1 to follow a discrete law exactly.            *)
(*                                                                           *)
(* The decision tree of a draw is recorded level by level: level n tells,    *)
(* for each result v, how many strings of n engine values end in v; open is  *)
(* the number of strings of the greatest length explored that do not end.    *)
EXTENDS Words, SequencesExt, FiniteSets

RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

(* every string is accounted for: sum over levels of tot(n) * b^(D-n), plus open, is b^D *)
Complete(b, lev, open) ==
  LET D == Len(lev) - 1
  IN FoldLeft(LAMBDA a, x : a * b + x.tot, 0, lev) + open = IPow(b, D)

(* all of 0..r equally often at every level; r is a word *)
LevelUniform(x, r) ==
  \/ x.tot = 0
  \/ /\ N2W(x.d - 1) = r                  \* as many different results as there are values
     /\ Le(W(x.top), r)                   \* none of them above r, so exactly 0..r
     /\ x.mn = x.mx
Uniform(lev, r) == \A k \in DOMAIN lev : LevelUniform(lev[k], r)

(* at least one string of length D ends, if D values can tell r+1 results apart *)
Enough(b, D, r) == Lt(r, N2W(IPow(b, D)))
Productive(b, lev, r) ==
  LET D == Len(lev) - 1
  IN (D >= 2 /\ Enough(b, D - 1, r)) \/ (D = 1 /\ Enough(b, 1, r)) => \E k \in DOMAIN lev : lev[k].tot > 0

(* uniform_smallint: one value u of the engine; the documented bound on the  *)
(* squared deviations, sum (c_i * ro - rb)^2 <= ro * m * (ro - m)            *)
SmallOK(b, lev, r) ==
  LET ro == W2N(r) + 1
      m  == b % ro
      x  == lev[2]
  IN IF ro > 300 \/ b > 300 THEN Le(W(x.top), r)
     ELSE /\ Le(W(x.top), r)
          /\ SumSeq([i \in DOMAIN x.c |-> (x.c[i] * ro - b) * (x.c[i] * ro - b)])
               + (ro - x.d) * b * b <= ro * m * (ro - m)

(* weighted results: A(v) strings of length D (or their prefixes) end in v.  *)
(* Exact proportionality to w(v)/ws pins A(v) between these bounds, whatever *)
(* the open strings do later.                                                *)
Tally(b, lev, v) ==
  FoldLeft(LAMBDA a, x : a * b + (LET i == SelectInSeq(x.v, LAMBDA y : y = v) IN IF i = 0 THEN 0 ELSE x.c[i]), 0, lev)
Weighted(b, lev, open, w) ==
  LET ws == SumSeq(w)  D == Len(lev) - 1  N == IPow(b, D)
      Pr(x, y) == Mul(N2W(x), N2W(y))
  IN /\ \A k \in DOMAIN lev : \A i \in DOMAIN lev[k].v :
          LET v == W2N(W(lev[k].v[i])) IN Fits30(W(lev[k].v[i])) /\ v < Len(w)   \* a valid index
     /\ \A i \in DOMAIN w :
          LET A == Tally(b, lev, IF i = 1 THEN <<>> ELSE <<i - 1>>)
          IN /\ w[i] = 0 => A = 0
             /\ Le(Pr(A, ws), Pr(w[i], N))
             /\ Le(Pr(w[i], N), Pr(A + open, ws))
=============================================================================
