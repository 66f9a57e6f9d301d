----------------------------- MODULE QrngTrace ------------------------------
(* Validates recorded histories of quasi-random engines (h_qrng.cpp): every   *)
(* operation must be the action of Qrng of the same name, and every value     *)
(* delivered must be the coordinate the position names.                        *)
(*                                                                         *)
(* Base-2 engines: vector n is the exclusive or of the direction vectors V_r  *)
(* selected by the bits r of the Gray code of n + 1.                          *)
(* Faure engines, dimension d: q is the least prime not below d, vector n has  *)
(* coordinate j = sum y_i / q^(i+1) where the digits y are those of n in base  *)
(* q, multiplied j times by the Pascal matrix modulo q.                        *)
EXTENDS Qrng, TraceBase, SequencesExt
VARIABLES fam,    \* "b2" or "faure"
          dirs,   \* b2: dirs[r][j]
          maxd,   \* largest dimension
          memo    \* faure: the coordinates of the vector last computed
tvars == <<l, qvars, fam, dirs, maxd, memo>>
Ids == 1..3
Force(f) == f \o <<>>
None == [d |-> 0]

Init == l = 1 /\ obj = [o \in Ids |-> Start(1)] /\ text = <<>> /\ len = One /\ fam = "" /\ dirs = <<>> /\ maxd = 1 /\ memo = None
Begin == IsEvent("begin") /\ UNCHANGED <<qvars, fam, dirs, maxd, memo>>
Cfg == /\ IsEvent("cfg") /\ fam' = Ev.fam /\ len' = W(Ev.len) /\ maxd' = Ev.maxd
       /\ dirs' = [r \in 1..Len(Ev.dirs) |-> [j \in 1..Len(Ev.dirs[r]) |-> W(Ev.dirs[r][j])]]
       /\ obj' = [o \in Ids |-> Start(Ev.d)] /\ text' = <<>> /\ memo' = None

(******************************* values ************************************)
GrayOf(n) == LET m == Add(n, One) IN XorW(m, Shr(m, 1))
B2(n, j) == LET g == GrayOf(n) IN FoldLeft(LAMBDA a, r : IF Bit(g, r - 1) = 1 THEN XorW(a, dirs[r][j + 1]) ELSE a, Zero, [r \in 1..Len(dirs) |-> r])
IsPrime(p) == p >= 2 /\ \A k \in 2..(p - 1) : k * k > p \/ p % k # 0
Base(d) == CHOOSE q \in d..(2 * d + 2) : IsPrime(q) /\ \A p \in d..(q - 1) : ~IsPrime(p)
Digits(n, q) == LET step(a, k) == IF a[2] = Zero /\ k > 1 THEN a ELSE LET dm == DivMod(a[2], N2W(q)) IN <<Append(a[1], W2N(dm[2])), dm[1]>>
                IN FoldLeft(step, <<<<>>, n>>, [k \in 1..70 |-> k])[1]
(* rows of the Pascal matrix modulo q: Pascal[k+1][i+1] = C(k,i) *)
PascalRows(h, q) == FoldLeft(LAMBDA rows, k : Append(rows, IF k = 0 THEN <<1>> ELSE
                        Force([i \in 1..(k + 1) |-> ((IF i = 1 THEN 0 ELSE rows[k][i - 1]) + (IF i = k + 1 THEN 0 ELSE rows[k][i])) % q])), <<>>, [k \in 1..h |-> k - 1])
TimesPascal(y, P, q) == Force([i \in 1..Len(y) |-> FoldLeft(LAMBDA a, k : IF k < i THEN a ELSE (a + y[k] * P[k][i]) % q, 0, [k \in 1..Len(y) |-> k])])
FaureVector(n, d) == LET q == Base(d)  y == Digits(n, q)  P == PascalRows(Len(y), q)
                     IN [d |-> d, n |-> n, q |-> q, y |-> FoldLeft(LAMBDA a, k : Append(a, TimesPascal(a[k], P, q)), <<y>>, [k \in 1..(d - 1) |-> k])]
(* the value times q^h, rounded down (0.001 added first); exact: it was within 0.001 of an integer *)
Pow(q, h) == FoldLeft(LAMBDA a, k : Mul(a, N2W(q)), One, [k \in 1..h |-> k])
IsFaure(v, m, j, h) == LET y == m.y[j + 1]
                           S == FoldLeft(LAMBDA a, i : Add(Mul(a, N2W(m.q)), N2W(IF i <= Len(y) THEN y[i] ELSE 0)), Zero, [i \in 1..h |-> i])
                           whole == Len(y) <= h \/ \A i \in (h + 1)..Len(y) : y[i] = 0
                       IN \/ W(v.v) = S /\ (whole => v.near)
                          \/ ~whole /\ W(v.v) = Add(S, One) /\ v.near
(* the vectors the coordinates asked for come from, most recent last *)
Lookup(m, x) == IF m # None /\ m.d = x.d /\ m.n = x.n THEN m ELSE FaureVector(x.n, x.d)
(* values vs delivered from position x on *)
AllB2(vs, x) == \A i \in 1..Len(vs) : LET p == Ahead(x, N2W(i - 1)) IN W(vs[i]) = B2(p.n, p.j)
RunFaure(vs, x, h) == FoldLeft(LAMBDA a, i : IF ~a.ok THEN a ELSE
                          LET p == Ahead(x, N2W(i - 1))  m == Lookup(a.m, p) IN [ok |-> IsFaure(vs[i], m, p.j, h), m |-> m],
                          [ok |-> TRUE, m |-> memo], [i \in 1..Len(vs) |-> i])
Values(vs, x) == IF fam = "b2" THEN (TRUE = AllB2(vs, x)) /\ memo' = memo
                 ELSE \E r \in {RunFaure(vs, x, Ev.h)} : r.ok /\ memo' = r.m

(******************************* events ************************************)
K  == UNCHANGED <<fam, dirs, maxd>>
KM == K /\ UNCHANGED memo
DimOK(d) == d >= 1 /\ d <= maxd
ENew  == IsEvent("new") /\ DimOK(Ev.d) /\ New(Ev.o, Ev.d) /\ KM
EBad  == IsEvent("bad") /\ ~DimOK(Ev.d) /\ Ev.right /\ Refuse(Ev.o) /\ KM
ESeed == IsEvent("seed") /\ KM /\ LET n == W(Ev.n) IN
         IF SeedOK(n) THEN ~Ev.threw /\ Seed(Ev.o, n) ELSE Ev.threw /\ Ev.right /\ Ev.same /\ SeedBad(Ev.o, n)
ESeed0 == IsEvent("seed0") /\ Seed(Ev.o, Zero) /\ KM
EDisc == IsEvent("disc") /\ KM /\ LET z == W(Ev.z) IN
         IF InSeq(Ahead(obj[Ev.o], z)) THEN ~Ev.threw /\ Draw(Ev.o, z) ELSE Ev.threw /\ Ev.right /\ Ev.same /\ DrawBad(Ev.o, z)
(* z values asked for, one by one or through generate(); fewer came only because the sequence ended *)
EDraw == /\ IsEvent("draw") /\ K
         /\ LET x == obj[Ev.o]  k == N2W(Len(Ev.vals)) IN
            /\ InSeq(Ahead(x, k)) /\ Values(Ev.vals, x) /\ Draw(Ev.o, k)
            /\ Ev.threw = (Len(Ev.vals) < Ev.z)
            /\ Ev.threw => AtEnd(Ahead(x, k)) /\ Ev.right /\ Ev.same
(* what a copy of the object would deliver next *)
EPeek == /\ IsEvent("peek") /\ K /\ UNCHANGED qvars
         /\ LET x == obj[Ev.o] IN /\ InSeq(Ahead(x, N2W(Len(Ev.vals)))) /\ Values(Ev.vals, x)
                                  /\ Ev.dim = x.d
                                  /\ (Len(Ev.vals) < Ev.z) => AtEnd(Ahead(x, N2W(Len(Ev.vals))))
ECopy == IsEvent("copy") /\ Copy(Ev.a, Ev.b) /\ KM
ESwap == IsEvent("swap") /\ Swap(Ev.a, Ev.b) /\ KM
ESave == IsEvent("save") /\ Ev.kept /\ Save(Ev.o) /\ KM
ELoad == IsEvent("load") /\ ~Ev.fail /\ Ev.kept /\ Load(Ev.o) /\ KM
(* a text of three numbers, or one with something missing *)
ERead == /\ IsEvent("read") /\ KM
         /\ LET x == At(Ev.d, W(Ev.n), 0)
                ok == ~Ev.cut /\ DimOK(Ev.d) /\ SeedOK(W(Ev.n)) /\ InSeq(Ahead(x, W(Ev.z)))
            IN IF ok THEN ~Ev.fail /\ Move(Ev.o, Ahead(x, W(Ev.z)))
               ELSE Ev.fail /\ Ev.same /\ Refuse(Ev.o)
Pairs == <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
EObs == /\ IsEvent("obs") /\ KM /\ UNCHANGED qvars
        /\ \A i \in 1..3 : Ev.eq[i] = Equal(Pairs[i][1], Pairs[i][2]) /\ Ev.ne[i] = ~Ev.eq[i]
Next == \/ Begin \/ Cfg \/ ENew \/ EBad \/ ESeed \/ ESeed0 \/ EDisc \/ EDraw \/ EPeek \/ ECopy \/ ESwap \/ ESave \/ ELoad \/ ERead \/ EObs
Spec == Init /\ [][Next]_tvars
=============================================================================
