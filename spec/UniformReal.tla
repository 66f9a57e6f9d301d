---------------------------- MODULE UniformReal ----------------------------
(* Real-valued uniform variates, judged on ordered lists of engine values.   *)
(* Real numbers enter as integer keys that preserve their order.             *)
EXTENDS UniformInt, Fair, TraceBase

Init == l = 1
Begin == IsEvent("begin")

(* a draw is repeated (one more engine value is taken) only for values at the top *)
Taken(i) == Ev.used[i] = Ev.k
(* (a comparison with TRUE keeps TLC from treating the formula as a         *)
(* disjunction of steps)                                                     *)
Real == /\ IsEvent("real")
        /\ TRUE = LET n == Len(Ev.us)
               v(i) == W(Ev.v[i])
               lo == W(Ev.lo)  hi == W(Ev.hi)
           IN /\ \A i \in 1..n :
                  /\ Le(lo, v(i)) /\ Lt(v(i), hi)                       \* in [lo, hi), never NaN
                  /\ Ev.used[i] \in {Ev.k, Ev.k + 1}                    \* the next value, 0, is accepted
                  /\ Ev.used[i] # Ev.k => Ev.k = 1 /\ v(i) = lo
                  /\ Taken(i) \/ Le(W(Ev.top), Shl(W(Ev.us[i]), 2))     \* only high values are refused
              /\ \A i \in 1..(n - 1) :
                  /\ Taken(i + 1) => Taken(i)
                  /\ Taken(i + 1) => Le(v(i), v(i + 1))                 \* non-decreasing
              /\ (Ev.low0 /\ W(Ev.us[1]) = Zero) => v(1) = lo           \* starting at the lower bound
              /\ (Ev.lin /\ Ev.fam # "realr") =>
                   \A i \in 1..n : Taken(i) =>
                      LET d == Ev.fr[i] - Ev.ub[i]
                          step == IF Lt(W(Ev.top), N2W(16777216)) THEN 16777216 \div (W2N(W(Ev.top)) + 1) + 1 ELSE 1
                      IN IF Ev.low0 THEN d \in (0 - Ev.slack)..Ev.slack
                         ELSE d \in (0 - Ev.slack)..(Ev.slack + step)
Tree == /\ IsEvent("tree")
        /\ ~Ev.nondet
        /\ Complete(Ev.b, Ev.lev, Ev.open)
        /\ Ev.open = 0
        /\ Uniform(Ev.lev, W(Ev.r))
Next == Begin \/ Real \/ Tree
Spec == Init /\ [][Next]_l
=============================================================================
