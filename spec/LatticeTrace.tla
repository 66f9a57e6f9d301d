---------------------------- MODULE LatticeTrace ----------------------------
(* What the real engines deliver (h_lattice.cpp), against the sequences that   *)
(* Lattice derives from the published tables.  Every event stands alone.       *)
EXTENDS Lattice, TraceBase
Tab == JsonDeserialize("qrng_tables.json")
vars == <<l>>
Ints(n) == [k \in 1..n |-> k]
Init == l = 1
Begin == IsEvent("begin")
(* dims[x] are the columns of dimension from + x - 1 (dimensions count from 0) *)
Sobol(d, w) == IF d = 0 THEN SobolFirst(w) ELSE SobolColumns(Tab.sobol[d], Tab.minit[d], w)
Cols == /\ IsEvent("cols")
        /\ TRUE = (\A x \in 1..Len(Ev.dims) : LET d == Ev.from + x - 1 IN
              Ev.dims[x] = IF Ev.fam = "sobol" THEN Sobol(d, Ev.w) ELSE NiedColumns(Tab.nied[d + 1], Ev.w))
(* the same on words *)
WSobol(d, V, w) == LET p == IF d = 0 THEN 1 ELSE Tab.sobol[d]  e == Deg(p) IN
   \A j \in 1..w : V[j] = IF d = 0 THEN PowW(w - j)
                          ELSE IF j <= e THEN Shl(N2W(Tab.minit[d][j]), w - j)
                          ELSE FoldLeft(LAMBDA a, i : IF BitOf(p, e - i) = 1 THEN XorW(a, V[j - i]) ELSE a, Shr(V[j - e], e), Ints(e))
WNied(d, V, w) == LET R == NiedRows(Tab.nied[d + 1], w) IN \A r \in 1..w : \A i \in 1..w : Bit(V[r], w - i) = R[i][r]
Wide == /\ IsEvent("wide")
        /\ TRUE = (\A x \in 1..Len(Ev.dims) : LET V == FSeq([r \in 1..Ev.w |-> W(Ev.dims[x][r])]) IN
              IF Ev.fam = "sobol" THEN WSobol(Ev.from + x - 1, V, Ev.w) ELSE WNied(Ev.from + x - 1, V, Ev.w))
(* one coordinate of the whole sequence of a narrow engine: all blocks of all sizes *)
Step(fam, d) == IF fam = "sobol" THEN 1 ELSE Deg(Tab.nied[d + 1])
Full == /\ IsEvent("full") /\ Len(Ev.vals) = P2(Ev.w) - 1
        /\ LET v == <<0>> \o Ev.vals IN
           TRUE = (\A k \in {x \in 1..Ev.w : x % Step(Ev.fam, Ev.d) = 0} : \A B \in 0..(P2(Ev.w - k) - 1) :
              Cardinality({v[i] \div P2(Ev.w - k) : i \in (B * P2(k) + 1)..((B + 1) * P2(k))}) = P2(k))
(* 2^k successive vectors far into the sequence of a wide engine, starting at a multiple of 2^k; the top k bits *)
Block2 == /\ IsEvent("block") /\ Ev.k % Step(Ev.fam, Ev.d) = 0 /\ Len(Ev.vals) = P2(Ev.k)
          /\ {Ev.vals[i] : i \in 1..Len(Ev.vals)} = 0..(P2(Ev.k) - 1)
(* Faure: q^k successive vectors, floor(x q^k) *)
IsPrime(p) == p >= 2 /\ \A k \in 2..(p - 1) : k * k > p \/ p % k # 0
RECURSIVE LeastPrime(_)
LeastPrime(n) == IF IsPrime(n) THEN n ELSE LeastPrime(n + 1)
RECURSIVE PowN(_, _)
PowN(q, k) == IF k = 0 THEN 1 ELSE q * PowN(q, k - 1)
FBlock == /\ IsEvent("fblock") /\ TRUE = LET q == LeastPrime(IF Ev.dim < 2 THEN 2 ELSE Ev.dim)  n == PowN(q, Ev.k) IN
             q = Ev.q /\ Len(Ev.vals) = n /\ {Ev.vals[i] : i \in 1..n} = 0..(n - 1)
(* Faure: coordinate j of vector n of a dim-dimensional engine is sum y_i / q^(i+1), y_i = sum_k C(k,i) j^(k-i) n_k mod q *)
PascalRows(h, q) == FoldLeft(LAMBDA rows, k : Append(rows, IF k = 0 THEN <<1>> ELSE
                        FSeq([i \in 1..(k + 1) |-> ((IF i = 1 THEN 0 ELSE rows[k][i - 1]) + (IF i = k + 1 THEN 0 ELSE rows[k][i])) % q])), <<>>, [k \in 1..h |-> k - 1])
RECURSIVE PowMod(_, _, _)
PowMod(b, e, q) == IF e = 0 THEN 1 % q ELSE (PowMod(b, e - 1, q) * b) % q
RECURSIVE DigitsOf(_, _)
DigitsOf(n, q) == IF Lt(n, N2W(q)) THEN <<W2N(n)>> ELSE LET dm == DivMod(n, N2W(q)) IN <<W2N(dm[2])>> \o DigitsOf(dm[1], q)
FVec == /\ IsEvent("fvec")
        /\ TRUE = LET q == LeastPrime(IF Ev.dim < 2 THEN 2 ELSE Ev.dim)
               n == DigitsOf(W(Ev.n), q)  h == Len(n)  P == PascalRows(h, q)
               y(j, i) == FoldLeft(LAMBDA a, k : IF k < i THEN a ELSE (a + ((P[k][i] * PowMod(j, k - i, q)) % q) * n[k]) % q, 0, Ints(h))
           IN /\ Ev.q = q /\ Ev.h = h
              /\ \A x \in 1..Len(Ev.js) : /\ Ev.near[x]
                     /\ W(Ev.vals[x]) = FoldLeft(LAMBDA a, i : Add(Mul(a, N2W(q)), N2W(y(Ev.js[x], i))), Zero, Ints(h))
Next == Begin \/ Cols \/ Wide \/ Full \/ Block2 \/ FBlock \/ FVec
Spec == Init /\ [][Next]_vars
=============================================================================
