---------------------------- MODULE GenerateTrace ----------------------------
(* Validates recorded fills against Generate.                                 *)
EXTENDS Generate, TraceBase
VARIABLES range, b, whole     \* the engine; the number of bits used (found from the trace)
vars == <<l, range, b, whole>>
Init == l = 1 /\ range = One /\ b = 1 /\ whole = FALSE
Begin == IsEvent("begin") /\ UNCHANGED <<range, b, whole>>
Engine == /\ IsEvent("engine") /\ range' = W(Ev.range) /\ whole' = Ev.whole
          /\ b' \in IF Ev.whole THEN {64} ELSE IF Ev.real THEN {Log2(Values(W(Ev.range)), 0)} ELSE MayUse(W(Ev.range))
Vals(s) == [i \in 1..Len(s) |-> W(s[i])] \o <<>>
EFill == /\ IsEvent("fill") /\ Ev.once /\ Ev.twin /\ Len(Ev.out) = Ev.n
         /\ TRUE = LET u == Vals(Ev.u)
                   IN IF whole THEN /\ (\E k \in DOMAIN Ev.used : Ev.used[k] = Ev.n)
                                    /\ \A i \in 1..Ev.n : W(Ev.out[i]) = Low(u[i], Ev.el)
                      ELSE LET f == Fill(range, b, u, Ev.n)
                           IN /\ f.enough /\ (\E k \in DOMAIN Ev.used : Ev.used[k] = f.used)
                              /\ \A i \in 1..Ev.n : W(Ev.out[i]) = Low(f.words[i], Ev.el)
         /\ UNCHANGED <<range, b, whole>>
Next == Begin \/ Engine \/ EFill
Spec == Init /\ [][Next]_vars
=============================================================================
