------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Where the coordinates of the quasi-random sequences come from.             *)
(*                                                                         *)
(* Base 2, w bits: vector n is the exclusive or of the columns V_r chosen by   *)
(* the bits r of the Gray code of n + 1.  A column is a w-bit number; V_r's    *)
(* bit w-1-i is the entry C[i][r] of the generator matrix.                     *)
(* Numbers are TLC integers here, so w <= 30; the trace specification also     *)
(* has the same laws on words.                                                *)
(***************************************************************************)
EXTENDS Words, SequencesExt, FiniteSetsExt
FSeq(f) == f \o <<>>
BitOf(x, k) == (x \div P2(k)) % 2
RECURSIVE Deg(_)
Deg(p) == IF p <= 1 THEN 0 ELSE 1 + Deg(p \div 2)            \* degree of a polynomial over GF(2), as bits
XorAll(S) == FoldLeft(LAMBDA a, x : a ^^ x, 0, S)

(********************* polynomials over GF(2) ******************************)
(* a * b mod p, degree of a and b below that of p *)
MulP(a, b, p) == LET e == Deg(p) IN
   FoldLeft(LAMBDA s, k : LET d == IF s \div P2(e - 1) % 2 = 1 THEN (s * 2) ^^ p ELSE s * 2
                          IN IF BitOf(a, e - k) = 1 THEN d ^^ b ELSE d, 0, [k \in 1..e |-> k])
RECURSIVE PowP(_, _, _)
PowP(a, n, p) == IF n = 0 THEN 1 ELSE LET h == PowP(a, n \div 2, p)  s == MulP(h, h, p) IN IF n % 2 = 1 THEN MulP(s, a, p) ELSE s
PrimeFactors(n) == {q \in 2..n : n % q = 0 /\ \A k \in 2..(q - 1) : k * k > q \/ q % k # 0}
(* prime factors of 2^e - 1 for e = 1..15 *)
MersenneFactors == <<{}, {3}, {7}, {3, 5}, {31}, {3, 7}, {127}, {3, 5, 17}, {7, 73}, {3, 11, 31}, {23, 89}, {3, 5, 7, 13}, {8191}, {3, 43, 127}, {7, 31, 151}>>
X(p) == IF Deg(p) = 1 THEN 1 ELSE 2                           \* x mod p (for p = x + 1, x = 1)
Primitive(p) == LET e == Deg(p) IN /\ p % 2 = 1
                                   /\ PowP(X(p), P2(e) - 1, p) = 1
                                   /\ \A q \in MersenneFactors[e] : PowP(X(p), (P2(e) - 1) \div q, p) # 1
RECURSIVE ModP(_, _)
ModP(a, p) == IF Deg(a) < Deg(p) THEN a ELSE ModP(a ^^ (p * P2(Deg(a) - Deg(p))), p)        \* Deg(p) >= 1
RECURSIVE GcdP(_, _)
GcdP(a, b) == IF b = 0 THEN a ELSE GcdP(b, IF b = 1 THEN 0 ELSE ModP(a, b))
RECURSIVE Frob(_, _)
Frob(k, p) == IF k = 0 THEN 2 ELSE LET h == Frob(k - 1, p) IN MulP(h, h, p)          \* x^(2^k) mod p
(* Rabin's test *)
Irreducible(p) == LET e == Deg(p) IN e = 1 \/ (/\ p % 2 = 1 /\ Frob(e, p) = 2
                                               /\ \A q \in PrimeFactors(e) : GcdP(p, Frob(e \div q, p) ^^ 2) = 1)
(* how many there are: phi(2^e - 1) / e and (1/e) sum mu(d) 2^(e/d) *)
Phi(n, fs) == FoldLeft(LAMBDA a, q : (a \div q) * (q - 1), n, SetToSeq(fs))
CountPrimitive(e) == IF e = 1 THEN 1 ELSE Phi(P2(e) - 1, MersenneFactors[e]) \div e
Divisors(e) == {d \in 1..e : e % d = 0}
Mu(d) == IF \E q \in 2..d : d % (q * q) = 0 THEN 0 ELSE IF Cardinality(PrimeFactors(d)) % 2 = 0 THEN 1 ELSE -1
CountIrreducible(e) == FoldLeft(LAMBDA a, d : a + Mu(d) * P2(e \div d), 0, SetToSeq(Divisors(e))) \div e

(***************************** Sobol ***************************************)
(* columns from the polynomial p and initial numbers m (m[k] odd, below 2^k) *)
SobolColumns(p, m, w) ==
  LET e == Deg(p)
      next(V, j) == LET j1 == j - 1
                        t == FoldLeft(LAMBDA a, i : IF BitOf(p, e - i) = 1 THEN a ^^ V[j - i] ELSE a, V[j - e] \div P2(e), [i \in 1..e |-> i])
                    IN Append(V, IF j <= Len(m) THEN m[j] * P2(w - j) ELSE t)
  IN FoldLeft(LAMBDA V, j : IF j <= Len(m) THEN Append(V, m[j] * P2(w - j)) ELSE next(V, j), <<>>, [j \in 1..w |-> j])
SobolFirst(w) == [j \in 1..w |-> P2(w - j)]                   \* dimension 0

(***************************** Niederreiter ********************************)
(* powers of p as sequences of coefficients, constant term first *)
Coeffs(p) == FSeq([k \in 1..(Deg(p) + 1) |-> BitOf(p, k - 1)])
TimesC(a, b) == FSeq([k \in 1..(Len(a) + Len(b) - 1) |-> FoldLeft(LAMBDA s, i : IF k - i + 1 >= 1 /\ k - i + 1 <= Len(b) THEN (s + a[i] * b[k - i + 1]) % 2 ELSE s, 0, [i \in 1..Len(a) |-> i])])
(* row i = e (q-1) + u (from 0) holds v[u], v[u+1], ... where v satisfies the   *)
(* recurrence of p^q after 0 (e(q-1) times) and 1 (e times)                    *)
NiedV(B, e, n) == LET dg == Len(B) - 1
                      sup == SelectSeq([k \in 1..dg |-> k], LAMBDA k : B[k] = 1)
                  IN FoldLeft(LAMBDA v, r : Append(v, IF r <= dg - e THEN 0 ELSE IF r <= dg THEN 1
                                               ELSE FoldLeft(LAMBDA s, k : (s + v[r + k - 1 - dg]) % 2, 0, sup)), <<>>, [r \in 1..n |-> r])
NiedRows(p, w) == LET e == Deg(p)
                      step(a, q) == LET B == TimesC(Coeffs(p), a.B)  v == NiedV(B, e, e + w - 1)
                                    IN [B |-> B, rows |-> a.rows \o FSeq([u \in 1..e |-> SubSeq(v, u, u + w - 1)])]
                  IN SubSeq(FoldLeft(step, [B |-> <<1>>, rows |-> <<>>], [q \in 1..((w + e - 1) \div e) |-> q]).rows, 1, w)
NiedColumns(p, w) == LET R == NiedRows(p, w) IN FSeq([r \in 1..w |-> FoldLeft(LAMBDA a, i : 2 * a + R[i][r], 0, [i \in 1..w |-> i])])

(***************************** stratification ******************************)
(* the leading k x k part of the matrix with columns V is invertible *)
Invertible(V, w, k) ==
  LET top(r) == V[r] \div P2(w - k)
      (* basis[b]: a vector whose highest bit is b - 1, or 0 *)
      reduce(x, basis) == FoldLeft(LAMBDA y, b : IF y >= P2(b - 1) /\ basis[b] # 0 THEN y ^^ basis[b] ELSE y, x, [i \in 1..k |-> k + 1 - i])
      step(a, r) == IF ~a.ok THEN a ELSE LET y == reduce(top(r), a.b) IN IF y = 0 THEN [ok |-> FALSE, b |-> a.b] ELSE [ok |-> TRUE, b |-> [a.b EXCEPT ![Deg(y) + 1] = y]]
  IN FoldLeft(step, [ok |-> TRUE, b |-> FSeq([i \in 1..k |-> 0])], [r \in 1..k |-> r]).ok
Gray(n) == n ^^ (n \div 2)
Vector(V, n) == LET g == Gray(n + 1) IN FoldLeft(LAMBDA a, r : IF BitOf(g, r - 1) = 1 THEN a ^^ V[r] ELSE a, 0, [r \in 1..Len(V) |-> r])
(* the vectors whose number plus one lies in block B of 2^k (the zero vector     *)
(* that starts the sequence is not delivered) fall into the 2^k intervals once   *)
Block(V, w, k, B) == {(IF i = 0 THEN 0 ELSE Vector(V, i - 1)) \div P2(w - k) : i \in (B * P2(k))..(B * P2(k) + P2(k) - 1)}
Stratified(V, w, k, B) == Block(V, w, k, B) = 0..(P2(k) - 1)
=============================================================================
