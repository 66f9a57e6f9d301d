----------------------------- MODULE EngineAPI ------------------------------
(***************************************************************************)
(* What a program that uses engine objects may rely on, whatever the engine:*)
(* an object is at a position of a stream (the infinite sequence a seeding   *)
(* produces); drawing and discarding move it, copying and assigning          *)
(* duplicate it, saving appends its state to a text and loading takes the    *)
(* first state off a text.  Objects have no other state: two objects at one  *)
(* position of one stream are equal and have the same future.                *)
(*                                                                         *)
(* The actions are used twice: EngineGen enumerates histories of them        *)
(* (scripts, replayed by harness/h_api.cpp on every engine of the catalog)   *)
(* and EngineApiTrace validates what was recorded.                           *)
(***************************************************************************)
EXTENDS Words

VARIABLES obj,      \* object name -> [s |-> stream, p |-> position]
          txt       \* a text stream: sequence of saved states and plain numbers

At(s, p) == [s |-> s, p |-> p]
ApiSeed(o, s)   == obj' = [obj EXCEPT ![o] = At(s, Zero)] /\ UNCHANGED txt
ApiMove(o, z)   == obj' = [obj EXCEPT ![o].p = Add(@, z)] /\ UNCHANGED txt
ApiCopy(a, b)   == obj' = [obj EXCEPT ![b] = obj[a]] /\ UNCHANGED txt
ApiSwap(a, b)   == obj' = [obj EXCEPT ![b] = obj[a], ![a] = obj[b]] /\ UNCHANGED txt
ApiSave(a)      == txt' = Append(txt, [k |-> "state", st |-> obj[a]]) /\ UNCHANGED obj
ApiMark         == txt' = Append(txt, [k |-> "number"]) /\ UNCHANGED obj
ApiLoad(b)      == /\ txt # <<>> /\ Head(txt).k = "state"
                   /\ obj' = [obj EXCEPT ![b] = Head(txt).st]
                   /\ txt' = Tail(txt)
ApiReadMark     == /\ txt # <<>> /\ Head(txt).k = "number"
                   /\ txt' = Tail(txt) /\ UNCHANGED obj
Same(a, b)      == obj[a] = obj[b]
=============================================================================
