------------------------------ MODULE LawTrace ------------------------------
(* How many of 2^nb draws fell at or below given points, judged by the        *)
(* distribution functions of Laws.                                             *)
(*                                                                            *)
(* The engine behind the draws gives its first two values of each draw on     *)
(* scrambled nets and any further values independently, in 32 independent     *)
(* batches; sd is the standard deviation of the sum estimated from them.  A   *)
(* count is explained by the law when it is within six standard deviations    *)
(* of independent draws, and within ten estimated ones, of its expectation;   *)
(* within ten estimated ones alone where they are the larger (ten is what the *)
(* t distribution with 31 degrees of freedom asks for instead of six).        *)
EXTENDS Laws, TraceBase
Init == l = 1
Begin == IsEvent("begin")

Min2(a, b) == IF a < b THEN a ELSE b
Dist(a, b) == IF a < b THEN b - a ELSE a - b
(* floor(f * 2^nb), 24 <= nb <= 30 or less *)
Expect(f, nb) == IF nb <= 24 THEN Scaled24(f) \div 2^(24 - nb) ELSE (Scaled24(f) * 2^(nb - 24)) + (f[2] \div 2^(36 - nb))
(* the variance of a count of mean e is below min(e, 2^nb - e), and 2^nb / 4 *)
Width(f, nb, sd) ==
  LET e == Expect(f, nb)
      var == Min2(Min2(e, 2^nb - e), 2^(nb - 2))
      m == ISqrt(var) + 1
  IN IF sd > m THEN (10 * sd) + 60 ELSE Min2((6 * m) + 40, (10 * sd) + 60)
Explained(ev, table, i) ==
  LET f == IF ev.disc THEN DiscAt(table, ev.j[i]) ELSE Cont(ev.fam, ev.p, ev.j[i])
      e == Expect(f, ev.nb)
      w == Width(f, ev.nb, ev.sd[i])
  IN \/ Dist(ev.c[i], e) <= w
     \/ PrintT("LAW " \o ToString(<<ev.fam, ev.p, ev.j[i], ev.c[i], e, w>>)) /\ FALSE
Judge(ev) ==
  LET n == Len(ev.j)
  IN /\ ev.bad = 0 /\ n > 0
     /\ \A table \in {IF ev.disc THEN DiscLaw(ev.fam, ev.p, (2 * ev.j[n]) + 60) ELSE <<>>} :
          \A i \in 1..n : Explained(ev, table, i)
Law == IsEvent("law") /\ TRUE = Judge(Ev)
Next == Begin \/ Law
Spec == Init /\ [][Next]_l
=============================================================================
