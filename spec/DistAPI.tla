------------------------------ MODULE DistAPI ------------------------------
(***************************************************************************)
(* What a program that uses distribution objects may rely on, whatever the   *)
(* distribution: an object is its parameter set, and nothing else.  A draw   *)
(* takes values from the engine and gives a result; both the result and the  *)
(* number of values taken are functions of the parameter set in force and    *)
(* the engine's state.  reset() forgets nothing a user can observe; param()  *)
(* reads or replaces the parameter set; saving appends it to a text and      *)
(* loading takes the first saved set off a text.                             *)
(*                                                                         *)
(* Parameter sets are numbered; 0 is the default one.  The actions are used  *)
(* twice: DistGen enumerates histories (scripts, replayed by                 *)
(* harness/h_dist.cpp on every distribution) and DistTrace validates what    *)
(* was recorded.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES dob,      \* distribution object -> parameter set in force
          pob,      \* param_type object -> parameter set
          eng,      \* engine -> [s |-> seed, p |-> values taken so far]
          text      \* a text stream: sequence of [k |-> kind, v |-> parameter set]

dvars == <<dob, pob, eng, text>>
DistInit(D, P, E) == /\ dob = [d \in D |-> 0] /\ pob = [q \in P |-> 0]
                     /\ eng = [x \in E |-> [s |-> x, p |-> 0]] /\ text = <<>>

New(d, v)      == dob' = [dob EXCEPT ![d] = v] /\ UNCHANGED <<pob, eng, text>>
MakeParam(q, v) == pob' = [pob EXCEPT ![q] = v] /\ UNCHANGED <<dob, eng, text>>
SetParam(d, q) == dob' = [dob EXCEPT ![d] = pob[q]] /\ UNCHANGED <<pob, eng, text>>
GetParam(q, d) == pob' = [pob EXCEPT ![q] = dob[d]] /\ UNCHANGED <<dob, eng, text>>
Reset(d)       == d \in DOMAIN dob /\ UNCHANGED dvars
Copy(a, b)     == dob' = [dob EXCEPT ![b] = dob[a]] /\ UNCHANGED <<pob, eng, text>>
Swap(a, b)     == dob' = [dob EXCEPT ![b] = dob[a], ![a] = dob[b]] /\ UNCHANGED <<pob, eng, text>>
(* drawing (with the stored or with a given parameter set) only moves the engine *)
Draws(x, used) == eng' = [eng EXCEPT ![x].p = @ + used] /\ UNCHANGED <<dob, pob, text>>
(* the engine delivers k values of a draw and throws at the next: the exception *)
(* gets out, and only the engine has moved                                     *)
Fault(x, k)    == Draws(x, k)
Reseed(x, s)   == eng' = [eng EXCEPT ![x] = [s |-> s, p |-> 0]] /\ UNCHANGED <<dob, pob, text>>
CopyEngine(x, y) == eng' = [eng EXCEPT ![y] = eng[x]] /\ UNCHANGED <<dob, pob, text>>
Save(d)        == text' = Append(text, [k |-> "dist", v |-> dob[d]]) /\ UNCHANGED <<dob, pob, eng>>
SaveParam(q)   == text' = Append(text, [k |-> "param", v |-> pob[q]]) /\ UNCHANGED <<dob, pob, eng>>
Mark           == text' = Append(text, [k |-> "number", v |-> 0]) /\ UNCHANGED <<dob, pob, eng>>
First(k)       == text # <<>> /\ Head(text).k = k
Load(d)        == First("dist") /\ dob' = [dob EXCEPT ![d] = Head(text).v] /\ text' = Tail(text) /\ UNCHANGED <<pob, eng>>
LoadParam(q)   == First("param") /\ pob' = [pob EXCEPT ![q] = Head(text).v] /\ text' = Tail(text) /\ UNCHANGED <<dob, eng>>
ReadMark       == First("number") /\ text' = Tail(text) /\ UNCHANGED <<dob, pob, eng>>
(* a text that does not hold a parameter set: reported, and nothing changes *)
BadLoad(d)     == d \in DOMAIN dob /\ UNCHANGED dvars
=============================================================================
