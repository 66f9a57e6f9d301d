------------------------------ MODULE Generate ------------------------------
(***************************************************************************)
(* Bulk generation: filling n elements with 32-bit words from an engine.     *)
(*                                                                         *)
(* An engine has the values 0..range (its minimum subtracted; an engine of    *)
(* reals with w binary digits is one of range 2^w - 1).  Of every value v     *)
(* taken the b low bits are used, after values at or above the largest        *)
(* multiple of 2^b have been thrown away; the bits so obtained, lowest        *)
(* first, are cut into words of WB bits.  Which b is used is up to the        *)
(* library, within limits: a range of exactly 2^k values loses no bits.       *)
(***************************************************************************)
EXTENDS Words, SequencesExt
CONSTANT WB                       \* bits of a word: 32; small in the model

(* floor(log2(x)) for a word x > 0 *)
RECURSIVE Log2(_, _)
Log2(x, k) == IF k < 74 /\ Le(PowW(k + 1), x) THEN Log2(x, k + 1) ELSE k
RECURSIVE ILog2(_)
ILog2(n) == IF n < 2 THEN 0 ELSE 1 + ILog2(n \div 2)
Values(range) == Add(range, One)
MayUse(range) == LET top == Log2(Values(range), 0)
                 IN IF Values(range) = PowW(top) THEN {top} ELSE (top - ILog2(top))..top
Accepted(range, b, v) == Lt(Shr(v, b), Shr(Values(range), b))

(* the accepted values, and their positions, in a sequence of values *)
Positions(range, b, u) == SelectSeq([i \in 1..Len(u) |-> i], LAMBDA i : Accepted(range, b, u[i]))
Needed(b, n) == (WB * n + b - 1) \div b
(* word j (from 0) of the bits of a, where every element of a gives b bits *)
RECURSIVE Pieces(_, _, _, _, _)
Pieces(a, b, k, at, w) ==        \* a[k] goes to bit `at` of the word
  IF at >= WB THEN Low(w, WB)
  ELSE Pieces(a, b, k + 1, at + b, OrW(w, Shl(Low(a[k], b), at)))
WordAt(a, b, j) ==
  LET k == (WB * j) \div b   o == (WB * j) % b
  IN Pieces(a, b, k + 2, b - o, Shr(Low(a[k + 1], b), o))
(* a fill of n elements: enough = FALSE if u is too short to tell *)
Fill(range, b, u, n) ==
  LET pos == Positions(range, b, u)
      a == [i \in 1..Len(pos) |-> u[pos[i]]]
      need == Needed(b, n)
  IN IF Len(pos) < need THEN [enough |-> FALSE, words |-> <<>>, used |-> 0]
     ELSE [enough |-> TRUE, words |-> [j \in 1..n |-> WordAt(a, b, j - 1)], used |-> IF n = 0 THEN 0 ELSE pos[need]]
=============================================================================
