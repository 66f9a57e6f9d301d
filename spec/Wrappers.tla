------------------------------ MODULE Wrappers ------------------------------
(***************************************************************************)
(* Generator wrappers: variate_generator, the old uniform_01 with an engine   *)
(* inside, random_number_generator.  An engine object is a cell holding a     *)
(* state <<seed, values drawn>>; a wrapper refers to a cell, which is a named  *)
(* engine when it holds it by reference or pointer, and a cell of its own when *)
(* it holds it by value.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS E, Wr                 \* named engines; wrappers
VARIABLES cell,                 \* E \cup Wr -> [s, p]; cell[w] is used by value-holding wrappers only
          wr                    \* Wr -> [kind, on, par]: kind "none", "val", "ref"; on: the cell; par: parameters of its distribution
wvars == <<cell, wr>>
None == [kind |-> "none", on |-> 0, par |-> 0]
Cells == E \cup Wr

WInit == cell = [c \in Cells |-> [s |-> IF c \in E THEN c ELSE 0, p |-> 0]] /\ wr = [w \in Wr |-> None]
Real(w) == wr[w].kind # "none"
On(w) == wr[w].on
Advance(c, k) == cell' = [cell EXCEPT ![c].p = @ + k]
(* the engine itself *)
Raw(x, k)   == Advance(x, k) /\ UNCHANGED wr
Seed(x, s)  == cell' = [cell EXCEPT ![x] = [s |-> s, p |-> 0]] /\ UNCHANGED wr
Assign(x, y) == cell' = [cell EXCEPT ![y] = cell[x]] /\ UNCHANGED wr
(* wrappers *)
MakeVal(w, x, v) == wr' = [wr EXCEPT ![w] = [kind |-> "val", on |-> w, par |-> v]] /\ cell' = [cell EXCEPT ![w] = cell[x]]
MakeRef(w, x, v) == wr' = [wr EXCEPT ![w] = [kind |-> "ref", on |-> x, par |-> v]] /\ UNCHANGED cell
Draw(w, used)    == Real(w) /\ Advance(On(w), used) /\ UNCHANGED wr
SetPar(w, v)     == Real(w) /\ wr' = [wr EXCEPT ![w].par = v] /\ UNCHANGED cell
WRaw(w, k)       == Real(w) /\ Raw(On(w), k)
WSeed(w, s)      == Real(w) /\ Seed(On(w), s)
CopyW(a, b)      == /\ Real(a)
                    /\ wr' = [wr EXCEPT ![b] = [wr[a] EXCEPT !.on = IF wr[a].kind = "val" THEN b ELSE @]]
                    /\ cell' = IF wr[a].kind = "val" THEN [cell EXCEPT ![b] = cell[a]] ELSE cell
=============================================================================
