----------------------------- MODULE EngineGen ------------------------------
(* Histories of EngineAPI.  Counts are symbolic, relative to the engine's    *)
(* buffer size B; here B = 5.  Run with -simulate it prints scripts; run     *)
(* exhaustively (small MaxLen) it checks the laws below.                     *)
EXTENDS EngineAPI, TLC, Json
CONSTANTS Objs, Streams, Ops, Zs, MaxLen, Emit
VARIABLES hist,
          kind      \* the kind of the next step, so that simulation picks kinds evenly
vars == <<obj, txt, hist, kind>>

Z == [z0 |-> 0, z1 |-> 1, z2 |-> 2, z3 |-> 3, zh |-> 2, zm |-> 4, zB |-> 5, zp |-> 6, zd |-> 10, zD |-> 11, zt |-> 14]
Log(x) == hist' = Append(hist, x)
Possible(k, t) == /\ k \in Ops
                  /\ k \in {"save", "mark"} => Len(t) < 4
                  /\ k = "load" => t # <<>> /\ Head(t).k = "state"
                  /\ k = "readmark" => t # <<>> /\ Head(t).k = "number"
Init == obj = [o \in Objs |-> At(1, Zero)] /\ txt = <<>> /\ hist = <<>> /\ kind \in {k \in Ops : Possible(k, <<>>)}
Step == CASE kind = "seed"    -> \E o \in Objs, s \in Streams, h \in {"seed", "ctor"} : ApiSeed(o, s) /\ Log(<<h, o, s>>)
          [] kind = "draw"    -> \E o \in Objs, z \in Zs : ApiMove(o, N2W(Z[z])) /\ Log(<<"draw", o, z>>)
          [] kind = "discard" -> \E o \in Objs, z \in Zs : ApiMove(o, N2W(Z[z])) /\ Log(<<"discard", o, z>>)
          [] kind = "copy"    -> \/ \E a \in Objs, b \in Objs, h \in {"copy", "assign", "move"} : a # b /\ ApiCopy(a, b) /\ Log(<<h, a, b>>)
                                 \/ \E a \in Objs : ApiCopy(a, a) /\ Log(<<"assign", a, a>>)
          [] kind = "swap"    -> \E a \in Objs, b \in Objs : a < b /\ ApiSwap(a, b) /\ Log(<<"swap", a, b>>)
          [] kind = "save"    -> \E a \in Objs : ApiSave(a) /\ Log(<<"save", a, 0>>)
          [] kind = "mark"    -> ApiMark /\ Log(<<"mark", 0, 0>>)
          [] kind = "load"    -> \E b \in Objs : ApiLoad(b) /\ Log(<<"load", b, 0>>)
          [] kind = "readmark" -> ApiReadMark /\ Log(<<"readmark", 0, 0>>)
Next == Len(hist) < MaxLen /\ Step /\ kind' \in {k \in Ops : Possible(k, txt')}
(* printing the script is a step of its own, so that a behaviour prints one *)
Done == Len(hist) = MaxLen /\ Emit /\ PrintT("SCRIPT " \o ToJson(hist)) /\ Log(<<"end", 0, 0>>) /\ UNCHANGED <<obj, txt, kind>>
Spec == Init /\ [][Next \/ Done]_vars

(* laws *)
TypeOK == /\ \A o \in Objs : obj[o].s \in Streams /\ obj[o].p \in [1..5 -> 0..32767]
          /\ \A i \in DOMAIN txt : txt[i].k \in {"state", "number"}
(* positions never exceed what was consumed, and saving or copying consumes nothing *)
RECURSIVE Total(_)
Total(h) == IF h = <<>> THEN 0 ELSE Total(Tail(h)) + (IF Head(h)[1] \in {"draw", "discard"} THEN Z[Head(h)[3]] ELSE 0)
Bounded == \A o \in Objs : W2N(obj[o].p) <= Total(hist)
=============================================================================
