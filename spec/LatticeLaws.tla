---------------------------- MODULE LatticeLaws ----------------------------
(* The published tables define sequences that are stratified:                  *)
(* - Sobol's polynomials are all the primitive ones of degree 1 to 15, in       *)
(*   order; the initial numbers are odd and in range; hence all leading parts   *)
(*   of all matrices are invertible;                                            *)
(* - Niederreiter's polynomials are all the irreducible ones of degree 1 to 15, *)
(*   in order; the leading k x k parts are invertible when k is a multiple of   *)
(*   the degree;                                                                *)
(* - invertible leading parts are what stratification of every aligned block    *)
(*   means (checked for all matrices of a small size).                          *)
EXTENDS Lattice, Json, TLC
CONSTANTS Width, Small, Stride, Offset
Tab == JsonDeserialize("qrng_tables.json")
VARIABLES kind, i
vars == <<kind, i>>
Chunk == 64
Items(k) == CASE k = "sobol" -> Len(Tab.sobol) [] k = "nied" -> Len(Tab.nied) [] k = "matrix" -> P2(Small * Small) [] k = "count" -> 30
Init == kind \in {"sobol", "nied", "matrix", "count"} /\ i \in {-c : c \in 1..Chunk}
Next == i < 0 /\ i' \in {j \in 1..Items(kind) : (j % Chunk) + 1 = -i /\ (kind \in {"matrix", "count"} \/ (j \div Chunk) % Stride = Offset)} /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

SobolOK == (kind = "sobol" /\ i > 0) =>
   LET p == Tab.sobol[i]  m == Tab.minit[i]  e == Deg(p)  V == SobolColumns(p, m, Width) IN
   /\ e \in 1..15 /\ (i > 1 => Tab.sobol[i - 1] < p) /\ Primitive(p)
   /\ Len(m) = e /\ \A k \in 1..e : m[k] % 2 = 1 /\ m[k] < P2(k)
   /\ \A k \in 1..Width : V[k] % P2(Width - k) = 0 /\ BitOf(V[k], Width - k) = 1
   /\ \A k \in {1, e, Width} : Invertible(V, Width, k)
NiedOK == (kind = "nied" /\ i > 0) =>
   LET p == Tab.nied[i]  e == Deg(p)  V == NiedColumns(p, Width) IN
   /\ e \in 1..15 /\ (i > 1 => Tab.nied[i - 1] < p) /\ Irreducible(p)
   /\ \A q \in 1..(Width \div e) : Invertible(V, Width, q * e)
CountOK == (kind = "count" /\ i > 0) =>
   IF i <= 15 THEN Len(SelectSeq(Tab.sobol, LAMBDA p : Deg(p) = i)) = CountPrimitive(i)
   ELSE Len(SelectSeq(Tab.nied, LAMBDA p : Deg(p) = i - 15)) = CountIrreducible(i - 15)
(* matrix number i - 1: Small columns of Small bits *)
MatrixOK == (kind = "matrix" /\ i > 0) =>
   LET V == [r \in 1..Small |-> ((i - 1) \div P2(Small * (r - 1))) % P2(Small)] IN
   \A k \in 1..Small : LET inv == Invertible(V, Small, k) IN
      /\ Stratified(V, Small, k, 0) = inv
      /\ inv => \A B \in 0..(P2(Small - k) - 1) : Stratified(V, Small, k, B)
=============================================================================
