---------------------------- MODULE GenerateModel ----------------------------
(***************************************************************************)
(* Laws of bulk generation, on engines of few values and short words: an      *)
(* incremental packer (pending bits, one value at a time, as a program would  *)
(* do it) gives the words of Generate, and equally likely engine values give  *)
(* equally likely words.                                                      *)
(***************************************************************************)
EXTENDS Generate, FiniteSets
CONSTANTS MaxB, MaxLen
VARIABLES B, b,          \* engine values 0..B-1, bits used of each
          hist,          \* values taken so far
          pool, words    \* pending bits (lowest first), words given so far
vars == <<B, b, hist, pool, words>>
R == N2W(B - 1)
RECURSIVE BitsOf(_, _)
BitsOf(v, k) == IF k = 0 THEN <<>> ELSE <<v % 2>> \o BitsOf(v \div 2, k - 1)
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Head(s) + 2 * Num(Tail(s))
RECURSIVE Cut(_, _)
Cut(p, ws) == IF Len(p) < WB THEN <<p, ws>> ELSE Cut(SubSeq(p, WB + 1, Len(p)), Append(ws, Num(SubSeq(p, 1, WB))))
Init == /\ B \in 2..MaxB /\ b \in MayUse(N2W(B - 1)) /\ b >= 1
        /\ hist = <<>> /\ pool = <<>> /\ words = <<>>
Take(v) == /\ Len(hist) < MaxLen /\ hist' = Append(hist, v) /\ UNCHANGED <<B, b>>
           /\ IF v < (B \div P2(b)) * P2(b)
              THEN LET c == Cut(pool \o BitsOf(v % P2(b), b), words) IN pool' = c[1] /\ words' = c[2]
              ELSE UNCHANGED <<pool, words>>
Next == \E v \in 0..(B - 1) : Take(v)
Spec == Init /\ [][Next]_vars

Vs == [i \in 1..Len(hist) |-> N2W(hist[i])] \o <<>>
(* after any values, the words so far are what Fill says, and the next word   *)
(* needs more values                                                          *)
Refines == /\ LET f == Fill(R, b, Vs, Len(words)) IN f.enough /\ [i \in 1..Len(words) |-> W2N(f.words[i])] = words
           /\ ~Fill(R, b, Vs, Len(words) + 1).enough
(* a fill of n words ends with a value it needs *)
UsedTight == LET f == Fill(R, b, Vs, Len(words)) IN f.used <= Len(hist) /\ (f.used > 0 => ~Fill(R, b, SubSeq(Vs, 1, f.used - 1), Len(words)).enough)
Strings(n) == [1..n -> {v \in 0..(B - 1) : Accepted(R, b, N2W(v))}]
(* equally many strings of accepted values for every sequence of n words *)
Fair == hist = <<>> => \A n \in 1..2 :
          LET k == Needed(b, n)   S == Strings(k)
              out(s) == [j \in 1..n |-> W2N(WordAt([i \in 1..k |-> N2W(s[i])], b, j - 1))]
              img == {out(s) : s \in S}
          IN Cardinality(S) > 2000
             \/ /\ Cardinality(img) = P2(WB * n)
                /\ \A t \in img : Cardinality({s \in S : out(s) = t}) * P2(WB * n) = Cardinality(S)
(* nothing is thrown away when the range is a power of two; never more than half *)
Thrift == /\ B = P2(ILog2(B)) => \A v \in 0..(B - 1) : Accepted(R, b, N2W(v))
          /\ 2 * Cardinality({v \in 0..(B - 1) : Accepted(R, b, N2W(v))}) > B
=============================================================================
