--------------------------- MODULE SeedSeqTrace ----------------------------
(* Validates recorded seed_seq::generate calls against SeedSeq.             *)
EXTENDS SeedSeq, TraceBase

VARIABLE stored          \* the words the object under observation holds

Ws(s) == [i \in DOMAIN s |-> W(s[i])] \o <<>>

Init == l = 1 /\ stored = <<>>
Begin == IsEvent("begin") /\ stored' = <<>>
Gen == /\ IsEvent("gen")
       /\ stored' = [i \in DOMAIN Ev.v |-> Low32(W(Ev.v[i]))] \o <<>>   \* reduced modulo 2^32
       /\ Ev.size = Len(stored')
       /\ Ws(Ev.param) = stored'
       /\ Len(Ev.out) = Ev.n
       /\ TRUE = (Ws(Ev.out) = Generate(stored', Ev.n))
       /\ Ev.guard          \* nothing outside the range was written
       /\ Ev.again          \* a second call gives the same words
Next == Begin \/ Gen
Spec == Init /\ [][Next]_<<l, stored>>
Below32 == \A i \in DOMAIN stored : Lt(stored[i], T32)
=============================================================================
