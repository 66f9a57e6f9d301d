--------------------------- MODULE EngineApiTrace ---------------------------
(* Validates recorded histories of several objects of one engine type.       *)
EXTENDS EngineAPI, TraceBase
VARIABLES known   \* values seen at far positions: <<s, p>> -> value
avars == <<l, obj, txt, known>>

Fresh == [o \in 1..3 |-> At(1, Zero)]
Init == l = 1 /\ obj = Fresh /\ txt = <<>> /\ known = <<>>
Begin == IsEvent("begin") /\ obj' = Fresh /\ txt' = <<>> /\ known' = <<>>
Keep == UNCHANGED known
Seed == IsEvent("seed") /\ ApiSeed(Ev.o, Ev.s) /\ Keep
(* the harness states where it believes the object to be, and the values a    *)
(* fresh engine gives there by plain drawing                                   *)
Draw == /\ IsEvent("draw")
        /\ obj[Ev.o] = At(Ev.s, W(Ev.p))
        /\ Ev.vals = Ev.ref
        /\ ApiMove(Ev.o, W(Ev.n)) /\ Keep
(* too far for a reference: the value at a position is a function of the position *)
FarDraw == /\ IsEvent("far")
           /\ LET k == ToString(obj[Ev.o])
              IN /\ k \in DOMAIN known => known[k] = Ev.vals
                 /\ known' = [x \in DOMAIN known \cup {k} |-> IF x = k THEN Ev.vals ELSE known[x]]
           /\ ApiMove(Ev.o, W(Ev.n))
Discard == IsEvent("discard") /\ ApiMove(Ev.o, W(Ev.z)) /\ Keep
Copy == IsEvent("copy") /\ ApiCopy(Ev.a, Ev.b) /\ Keep
Swap == IsEvent("swap") /\ ApiSwap(Ev.a, Ev.b) /\ Keep
(* writing leaves the stream good and the object unchanged *)
Save == IsEvent("save") /\ Ev.good /\ Ev.kept /\ ApiSave(Ev.a) /\ Keep
Mark == IsEvent("mark") /\ ApiMark /\ Keep
(* reading takes exactly one object's text *)
Load == IsEvent("load") /\ ~Ev.fail /\ Ev.kept /\ ApiLoad(Ev.b) /\ Keep
ReadMark == IsEvent("readmark") /\ ~Ev.fail /\ Ev.right /\ ApiReadMark /\ Keep
(* == and != of every pair; fa, fb: digests of the values the two give next *)
Eq == /\ IsEvent("eq")
      /\ Ev.ne = ~Ev.eq /\ Ev.rev = Ev.eq
      /\ Same(Ev.a, Ev.b) => Ev.eq
      /\ Ev.eq => Ev.fa = Ev.fb
      /\ UNCHANGED <<obj, txt>> /\ Keep
(* a text cut after (part of) token k of n, or with token k replaced by a word *)
Damaged == /\ IsEvent("damaged")
           /\ Ev.k < Ev.n => Ev.fail
           /\ UNCHANGED <<obj, txt>> /\ Keep
(* a text put together from the texts of two states: if == says it is one of *)
(* them, it must behave like it                                              *)
Mixed == /\ IsEvent("mixed")
         /\ Ev.eq => Ev.fa = Ev.fb
         /\ UNCHANGED <<obj, txt>> /\ Keep

Next == Begin \/ Seed \/ Draw \/ FarDraw \/ Discard \/ Copy \/ Swap \/ Save \/ Mark \/ Load \/ ReadMark \/ Eq \/ Damaged \/ Mixed
Spec == Init /\ [][Next]_avars
=============================================================================
