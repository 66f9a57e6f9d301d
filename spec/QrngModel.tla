----------------------------- MODULE QrngModel ------------------------------
(* The code keeps a triple <<D, S, c>>: the vector computed last, and how many *)
(* of its coordinates were handed out; <<D, S, D>> and <<D, S + 1, 0>> are the  *)
(* same position.  Here that representation, with the unsigned arithmetic of    *)
(* discard() (which counts up to MaxZ and wraps), is shown to refine Qrng's     *)
(* positions, and the equality operator to decide equal positions.              *)
EXTENDS Qrng, TLC
CONSTANTS Ds, NV, MaxZ
VARIABLE x, y         \* two engines, as triples
vars == <<x, y, obj, text, len>>
T(d, s, c) == [d |-> d, s |-> s, c |-> c]
Pos(t) == IF t.c = t.d THEN At(t.d, N2W(t.s + 1), 0) ELSE At(t.d, N2W(t.s), t.c)

SeedT(t, n) == IF n < NV THEN T(t.d, n, 0) ELSE t
DrawT(t) == IF t.c # t.d THEN T(t.d, t.s, t.c + 1) ELSE IF t.s + 1 < NV THEN T(t.d, t.s + 1, 1) ELSE t
(* (result, refused) *)
DiscardT(t, z) ==
  LET vec == z \div t.d   carry == t.c + (z % t.d)
      extra == carry \div t.d   c2 == carry % t.d
      corr == IF c2 = 0 /\ (vec # 0 \/ extra # 0) THEN 1 ELSE 0
      by == (((vec + extra) % (MaxZ + 1)) - corr) % (MaxZ + 1)
      s2 == t.s + by
  IN IF s2 >= NV THEN t ELSE T(t.d, s2, IF corr = 1 THEN t.d ELSE c2)
ReadT(d, s, z) == DiscardT(T(d, s, 0), z)
EqT(a, b) == /\ a.d = b.d /\ a.s - b.s \in {-1, 0, 1}
             /\ a.s + (a.c \div a.d) = b.s + (b.c \div b.d) /\ a.c % a.d = b.c % b.d

Put(t, u) == /\ x' = t /\ y' = u /\ obj' = [o \in {1, 2} |-> IF o = 1 THEN Pos(t) ELSE Pos(u)] /\ UNCHANGED <<text, len>>
Init == /\ x \in {T(d, 0, 0) : d \in Ds} /\ y = x /\ obj = [o \in {1, 2} |-> Pos(x)] /\ text = <<>> /\ len = N2W(NV)
Ops(t) == {SeedT(t, n) : n \in 0..(NV + 1)} \cup {DrawT(t)} \cup {DiscardT(t, z) : z \in 0..MaxZ} \cup {T(d, 0, 0) : d \in Ds}
Next == \E t \in Ops(x) \cup {y} : Put(t, y) \/ Put(y, t)
Spec == Init /\ [][Next]_vars

(* the triple does what the position should: all operations from this state *)
SeedRefines == \A n \in 0..(NV + 1) : Pos(SeedT(x, n)) = IF SeedOK(N2W(n)) THEN At(x.d, N2W(n), 0) ELSE Pos(x)
MoveTo(p, z) == IF InSeq(Ahead(p, N2W(z))) THEN Ahead(p, N2W(z)) ELSE p
DrawRefines == Pos(DrawT(x)) = MoveTo(Pos(x), 1)
DiscardRefines == \A z \in 0..MaxZ : Pos(DiscardT(x, z)) = MoveTo(Pos(x), z)
SaveRefines == Pos(ReadT(x.d, x.s, x.c)) = Pos(x)
EqualRefines == EqT(x, y) <=> Equal(1, 2)
InRange == x.s \in 0..(NV - 1) /\ x.c \in 0..x.d
=============================================================================
