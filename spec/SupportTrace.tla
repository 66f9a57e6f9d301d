---------------------------- MODULE SupportTrace ----------------------------
(* Validates recorded draws against Support.                                  *)
EXTENDS Support, TraceBase
vars == <<l>>
Init == l = 1
Begin == IsEvent("begin")
(* ordinary values an engine may be asked for, at most, to end a draw *)
Patience == 2000
Draws == /\ IsEvent("draws") /\ ~Ev.stuck /\ Ev.most <= Patience
         /\ TRUE = \A i \in DOMAIN Ev.vals :
              CASE Ev.kind = 0 -> InSupport(Ev.fam, Ev.a, Ev.n, Ev.mx, Ev.vals[i])
                [] Ev.kind = 1 -> IndexOk(Ev.a, Ev.vals[i])
                [] Ev.kind = 2 -> OnSphere(Ev.vals[i], Ev.n)
Next == Begin \/ Draws
Spec == Init /\ [][Next]_vars
=============================================================================
