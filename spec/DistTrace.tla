----------------------------- MODULE DistTrace ------------------------------
(* Validates recorded histories of the objects of one distribution.           *)
EXTENDS DistAPI, TraceBase
VARIABLES tab      \* the digests of what the accessors of each parameter set report
tvars == <<l, dob, pob, eng, text, tab>>

Ids == 1..3
Start == /\ dob' = [d \in Ids |-> 0] /\ pob' = [q \in 1..2 |-> 0]
         /\ eng' = [x \in 1..2 |-> [s |-> x, p |-> 0]] /\ text' = <<>>
Init == l = 1 /\ DistInit(Ids, 1..2, 1..2) /\ tab = <<>>
Begin == IsEvent("begin") /\ Start /\ tab' = <<>>
(* the arguments the parameter sets were made from, as the accessors should give them *)
Table == IsEvent("table") /\ tab' = [d |-> Ev.d, p |-> Ev.p] /\ UNCHANGED dvars
K == UNCHANGED tab
ENew   == IsEvent("new") /\ New(Ev.d, Ev.v) /\ K
EMkp   == IsEvent("mkp") /\ MakeParam(Ev.q, Ev.v) /\ K
EParam == IsEvent("param") /\ SetParam(Ev.d, Ev.q) /\ K
EGetp  == IsEvent("getp") /\ GetParam(Ev.q, Ev.d) /\ K
EReset == IsEvent("reset") /\ Reset(Ev.d) /\ K
ECopy  == IsEvent("copy") /\ Copy(Ev.a, Ev.b) /\ K
ESwap  == IsEvent("swap") /\ Swap(Ev.a, Ev.b) /\ K
EReseed == IsEvent("reseed") /\ Reseed(Ev.x, Ev.s) /\ K
EEcopy == IsEvent("ecopy") /\ CopyEngine(Ev.x, Ev.y) /\ K
(* ref, rused: the results of a fresh object given parameter set Ev.v, on a   *)
(* fresh engine brought to the state Ev.s, Ev.p                               *)
EDraw == /\ IsEvent("draw")
         /\ Ev.v = (IF Ev.q = 0 THEN dob[Ev.d] ELSE pob[Ev.q])
         /\ eng[Ev.x] = [s |-> Ev.s, p |-> Ev.p]
         /\ Ev.vals = Ev.ref /\ Ev.used = Ev.rused
         /\ Draws(Ev.x, Ev.used) /\ K
(* one draw from an engine that throws after Ev.k values, and the same with a   *)
(* fresh object: the exception is not swallowed, and every observation that     *)
(* follows must find the object as it was                                       *)
EFault == /\ IsEvent("fault")
          /\ eng[Ev.x] = [s |-> Ev.s, p |-> Ev.p] /\ Ev.v = dob[Ev.d]
          /\ Ev.threw = Ev.rthrew /\ Ev.used = Ev.rused /\ Ev.val = Ev.rval
          /\ Ev.threw => Ev.used = Ev.k
          /\ Ev.used <= Ev.k
          /\ Fault(Ev.x, Ev.used) /\ K
ESave  == IsEvent("save") /\ Ev.good /\ Ev.kept /\ Save(Ev.d) /\ K
ESavep == IsEvent("savep") /\ Ev.good /\ Ev.kept /\ SaveParam(Ev.q) /\ K
EMark  == IsEvent("mark") /\ Mark /\ K
ELoad  == IsEvent("load") /\ ~Ev.fail /\ Ev.kept /\ Load(Ev.d) /\ K
ELoadp == IsEvent("loadp") /\ ~Ev.fail /\ Ev.kept /\ LoadParam(Ev.q) /\ K
ERead  == IsEvent("readmark") /\ ~Ev.fail /\ Ev.right /\ ReadMark /\ K
(* after every step: == and != of all pairs, and all accessors, of all objects *)
Pairs == <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
Obs == /\ IsEvent("obs")
       /\ \A i \in 1..3 : Ev.eq[i] = (dob[Pairs[i][1]] = dob[Pairs[i][2]])
       /\ Ev.eq[4] = (pob[1] = pob[2])
       /\ \A i \in 1..4 : Ev.ne[i] = ~Ev.eq[i]
       /\ \A i \in 1..3 : Ev.acc[i] = tab.d[dob[i] + 1]
       /\ \A i \in 1..2 : Ev.accp[i] = tab.p[pob[i] + 1]
       /\ UNCHANGED dvars /\ K
(* a text cut after k of its n parts, or with a part replaced, or (bad) one   *)
(* that names no valid parameter set                                          *)
Damaged == /\ IsEvent("damaged")
           /\ (Ev.k < Ev.n \/ Ev.bad) => Ev.fail
           /\ (Ev.fail /\ Ev.dist) => Ev.same
           /\ BadLoad(1) /\ K
(* a text with the members of a valid set in another layout *)
Named  == IsEvent("named") /\ ~Ev.fail /\ Ev.acc = tab.d[Ev.v + 1] /\ UNCHANGED dvars /\ K
Namedp == IsEvent("namedp") /\ ~Ev.fail /\ Ev.acc = tab.p[Ev.v + 1] /\ UNCHANGED dvars /\ K
Next == \/ Begin \/ Table \/ ENew \/ EMkp \/ EParam \/ EGetp \/ EReset \/ ECopy \/ ESwap \/ EReseed \/ EEcopy
        \/ EDraw \/ EFault \/ ESave \/ ESavep \/ EMark \/ ELoad \/ ELoadp \/ ERead \/ Obs \/ Damaged
        \/ Named \/ Namedp
Spec == Init /\ [][Next]_tvars
=============================================================================
