------------------------------ MODULE QrngGen ------------------------------
(* Histories of Qrng.  Simulated they give scripts for h_qrng.cpp, where the  *)
(* distances and seeds are named by what they are at that moment (E: exactly  *)
(* to the end, E+: one too many, ...); enumerated with a short sequence they  *)
(* check the laws below.                                                      *)
EXTENDS Qrng, TLC, Json, FiniteSets
CONSTANTS Dims, Len0, Ops, O, MaxText, MaxLen, Emit
VARIABLES hist, kind
vars == <<obj, text, len, hist, kind>>
N(w) == W2N(w)
Log(x) == hist' = Append(hist, x)
(* values of the names *)
Rest(x) == (N(len) - N(x.n)) * x.d - x.j
Dist == {"z0", "z1", "z2", "D-", "D", "D+", "2D", "m", "E", "E-", "E+", "huge"}
DistVal(s, x) == CASE s = "z0" -> 0 [] s = "z1" -> 1 [] s = "z2" -> 2 [] s = "D-" -> x.d - 1 [] s = "D" -> x.d [] s = "D+" -> x.d + 1
                   [] s = "2D" -> 2 * x.d [] s = "m" -> Rest(x) \div 2 [] s = "E" -> Rest(x) [] s = "E-" -> IF Rest(x) = 0 THEN 0 ELSE Rest(x) - 1
                   [] s = "E+" -> Rest(x) + 1 [] s = "huge" -> 100000
(* single draws stop at the end, having taken what there was *)
Taken(s, x) == N2W(IF DistVal(s, x) > Rest(x) THEN Rest(x) ELSE DistVal(s, x))
Seeds == {"s0", "s1", "sm", "L-2", "L-1", "L", "L+", "smax", "same", "next"}
SeedVal(s, x) == CASE s = "s0" -> 0 [] s = "s1" -> 1 [] s = "sm" -> N(len) \div 2 [] s = "L-2" -> IF N(len) < 2 THEN 0 ELSE N(len) - 2 [] s = "L-1" -> N(len) - 1
                   [] s = "L" -> N(len) [] s = "L+" -> N(len) + 1 [] s = "smax" -> 30000 [] s = "same" -> N(x.n) [] s = "next" -> N(x.n) + 1
Possible(k, t) == k \in Ops /\ (k = "save" => Len(t) < MaxText) /\ (k = "load" => t # <<>>)
Init == /\ obj = [o \in O |-> Start(CHOOSE d \in Dims : \A e \in Dims : d <= e)] /\ text = <<>> /\ len = N2W(Len0) /\ hist = <<>>
        /\ kind \in {k \in Ops : Possible(k, <<>>)}
Step == CASE kind = "new"  -> \E o \in O, d \in Dims : New(o, d) /\ Log(<<"new", o, ToString(d)>>)
          [] kind = "bad"  -> \E o \in O, d \in {"0", "max"} : Refuse(o) /\ Log(<<"bad", o, d>>)
          [] kind = "seed" -> \E o \in O, s \in Seeds : (LET n == N2W(SeedVal(s, obj[o])) IN Seed(o, n) \/ SeedBad(o, n)) /\ Log(<<"seed", o, s>>)
          [] kind = "seed0" -> \E o \in O : Move(o, Start(obj[o].d)) /\ Log(<<"seed0", o, "">>)
          [] kind = "draw" -> \E o \in O, s \in {"z1", "z2", "D", "D+"} : Draw(o, Taken(s, obj[o])) /\ Log(<<"draw", o, s>>)
          [] kind = "disc" -> \E o \in O, s \in Dist : (LET z == N2W(DistVal(s, obj[o])) IN Draw(o, z) \/ DrawBad(o, z)) /\ Log(<<"disc", o, s>>)
          [] kind = "gen"  -> \E o \in O, s \in {"z0", "z1", "D+", "2D"} : Draw(o, Taken(s, obj[o])) /\ Log(<<"gen", o, s>>)
          [] kind = "copy" -> \E a \in O, b \in O, h \in {"copy", "assign"} : a # b /\ Copy(a, b) /\ Log(<<h, a, ToString(b)>>)
          [] kind = "swap" -> \E a \in O, b \in O : a < b /\ Swap(a, b) /\ Log(<<"swap", a, ToString(b)>>)
          [] kind = "save" -> \E o \in O : Save(o) /\ Log(<<"save", o, "">>)
          [] kind = "load" -> \E o \in O : Load(o) /\ Log(<<"load", o, "">>)
Next == Len(hist) < MaxLen /\ Step /\ kind' \in {k \in Ops : Possible(k, text')}
Done == Len(hist) = MaxLen /\ Emit /\ PrintT("SCRIPT " \o ToJson(hist)) /\ Log(<<"end", 0, "">>) /\ UNCHANGED <<qvars, kind>>
Spec == Init /\ [][Next \/ Done]_vars

View == <<obj, text, len, kind>>
(* where an object stands, as a single number *)
Place(x) == N(x.n) * x.d + x.j
TypeOK == \A o \in O : obj[o].d \in Dims /\ InSeq(obj[o]) /\ obj[o].j \in 0..(obj[o].d - 1)
(* moving by y and then by z is moving by y + z; seeds and distances agree *)
Additive == \A o \in O : \A y, z \in {0, 1, 2, 5} : Ahead(Ahead(obj[o], N2W(y)), N2W(z)) = Ahead(obj[o], N2W(y + z))
Consistent == \A o \in O : /\ Place(Ahead(obj[o], N2W(3))) = Place(obj[o]) + 3
                           /\ At(obj[o].d, obj[o].n, 0) = Ahead(Start(obj[o].d), N2W(N(obj[o].n) * obj[o].d))
                           /\ (AtEnd(obj[o]) <=> Rest(obj[o]) = 0)
(* equal means: same dimension and the same values to come *)
Same == \A a, b \in O : Equal(a, b) <=> (obj[a].d = obj[b].d /\ Place(obj[a]) = Place(obj[b]))
=============================================================================
