----------------------------- MODULE DrawTrace ------------------------------
(* Validates recorded decision trees and single draws of the uniform and     *)
(* weighted distributions.                                                    *)
EXTENDS UniformInt, UniformBig, Fair, TraceBase

Init == l = 1
Begin == IsEvent("begin")
Ws(s) == [i \in DOMAIN s |-> W(s[i])] \o <<>>

Tree == /\ IsEvent("tree")
        /\ ~Ev.nondet
        /\ TRUE = Complete(Ev.b, Ev.lev, Ev.open)
        /\ TRUE = CASE Ev.fam = "uniform" -> Uniform(Ev.lev, W(Ev.r)) /\ Productive(Ev.b, Ev.lev, W(Ev.r))
             [] Ev.fam = "small" -> Ev.open = 0 /\ Ev.lev[1].tot = 0 /\ SmallOK(Ev.b, Ev.lev, W(Ev.r))
             [] Ev.fam = "weights" -> Weighted(Ev.b, Ev.lev, Ev.open, Ev.w)
(* one draw with prescribed engine values *)
One1 == /\ IsEvent("one")
        /\ Ev["in"]
        /\ TRUE = CASE Ev.fam = "small" -> Ev.done /\ Le(W(Ev.v), W(Ev.r)) /\ Ev.used = 1
             [] Ev.fam = "uniform" ->
                  LET d == Draw(W(Ev.br), W(Ev.r), Ws(Ev.us), 1)
                  IN IF Ev.done THEN d[1] = Ev.used + 1 /\ d[2] = W(Ev.v)
                     ELSE d[1] = 0
             [] Ev.fam = "big" ->
                  LET d == BDraw(Ev.br, Ev.r, Ev.us, 1)
                  IN IF Ev.done THEN d[1] = Ev.used + 1 /\ d[2] = Ev.v
                     ELSE d[1] = 0
(* integer weights are reported unchanged, and indices run from 0 to n-1 *)
Probs == /\ IsEvent("probs")
         /\ Ev.got = Ev.given /\ Ev.par = Ev.given /\ Ev.pp = Ev.given
         /\ Ev.min = 0 /\ Ev.max = Len(Ev.given) - 1
(* no weights at all: one possible result, 0 *)
Empty == /\ IsEvent("empty")
         /\ \A i \in DOMAIN Ev.got : Ev.got[i] = 0 /\ Ev.size[i] = 1 /\ Ev.eq[i] = 1
(* real weights: valid indices, never one of weight zero, probabilities as given *)
RDisc == /\ IsEvent("rdisc")
         /\ \A i \in DOMAIN Ev.got : /\ Ev.got[i] \in 0..(Ev.n - 1)
                                     /\ \A j \in DOMAIN Ev.zero : Ev.zero[j] # Ev.got[i]
         /\ Ev.size = Ev.n /\ \A i \in DOMAIN Ev.close : Ev.close[i] = 1
         /\ Ev.min = 0 /\ Ev.max = Ev.n - 1
(* p = num/den succeeds for the first c of the b engine values, c being p*b  *)
(* where that is a whole number and one of its neighbours otherwise          *)
Bern == /\ IsEvent("bern")
        /\ LET c == Len(Ev.succ) IN
           /\ Ev.succ = [i \in 1..c |-> i - 1] \o <<>>
           /\ (Ev.num * Ev.b) % Ev.den = 0 => c * Ev.den = Ev.num * Ev.b
           /\ c \in {(Ev.num * Ev.b) \div Ev.den, (Ev.num * Ev.b) \div Ev.den + 1}
BernWide == /\ IsEvent("bernw")
            /\ Ev.num > 0 => \A i \in DOMAIN Ev.below : Ev.below[i] = 1
            /\ Ev.num < Ev.den => \A i \in DOMAIN Ev.above : Ev.above[i] = 0
            /\ Ev.num = 0 => \A i \in DOMAIN Ev.below : Ev.below[i] = 0
            /\ Ev.num = Ev.den => \A i \in DOMAIN Ev.above : Ev.above[i] = 1
Next == Begin \/ Tree \/ One1 \/ Probs \/ Empty \/ RDisc \/ Bern \/ BernWide
Spec == Init /\ [][Next]_l
=============================================================================
