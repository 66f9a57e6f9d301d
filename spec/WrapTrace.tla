----------------------------- MODULE WrapTrace ------------------------------
(* Validates recorded histories of engines and their wrappers.                *)
EXTENDS Wrappers, TraceBase
VARIABLES tab      \* per seed, digests of the next raw values at each position; digests of the parameter sets and their limits
tvars == <<l, cell, wr, tab>>
Init == l = 1 /\ WInit /\ tab = <<>>
Start == /\ cell' = [c \in Cells |-> [s |-> IF c \in E THEN c ELSE 0, p |-> 0]] /\ wr' = [w \in Wr |-> None]
Begin == IsEvent("begin") /\ Start /\ tab' = <<>>
Table == IsEvent("table") /\ tab' = [raw |-> Ev.raw, par |-> Ev.par, lim |-> Ev.lim, unit |-> Ev.unit] /\ UNCHANGED wvars
K == UNCHANGED tab
ESeed == IsEvent("seed") /\ Seed(Ev.x, Ev.s) /\ K
ERaw  == IsEvent("raw") /\ Raw(Ev.x, Ev.k) /\ K
EAsg  == IsEvent("easg") /\ Assign(Ev.x, Ev.y) /\ K
EMake == IsEvent("make") /\ (IF Ev.val THEN MakeVal(Ev.w, Ev.x, Ev.v) ELSE MakeRef(Ev.w, Ev.x, Ev.v)) /\ K
(* ref, rused: what a distribution with that parameter set gives on an engine *)
(* of its own brought to state s, p, and how many values it takes              *)
EDraw == /\ IsEvent("draw")
         /\ Real(Ev.w) /\ cell[On(Ev.w)] = [s |-> Ev.s, p |-> Ev.p] /\ wr[Ev.w].par = Ev.par
         /\ Ev.val = Ev.ref /\ Ev.used >= 0 /\ Ev.used = Ev.rused
         /\ Draw(Ev.w, Ev.used) /\ K
EWraw == IsEvent("wraw") /\ WRaw(Ev.w, Ev.k) /\ K
EWseed == IsEvent("wseed") /\ WSeed(Ev.w, Ev.s) /\ K
ESetp == IsEvent("setp") /\ SetPar(Ev.w, Ev.v) /\ K
ECopy == IsEvent("copy") /\ CopyW(Ev.a, Ev.b) /\ K
(* after every step: where every engine stands, named and inside wrappers; who *)
(* holds whom; parameters and limits seen through the wrappers                 *)
Peek(c) == LET x == cell[c] IN IF x.s = 0 \/ x.p >= Len(tab.raw[x.s]) THEN -1 ELSE tab.raw[x.s][x.p + 1]
Sees(c, v) == Peek(c) = -1 \/ v = Peek(c)
Obs == /\ IsEvent("obs")
       /\ \A x \in E : Sees(x, Ev.en[x])
       /\ TRUE = \A w \in Wr : LET i == w - 10 IN
            (Real(w) /\ Ev.at[i] # 0) => /\ Sees(On(w), Ev.w[i]) /\ Sees(On(w), Ev.c[i]) /\ Ev.at[i] = On(w)
       /\ TRUE = \A w \in Wr : LET i == w - 10 IN
            (Real(w) /\ Ev.par[i] # -1) => /\ Ev.par[i] = tab.par[wr[w].par + 1] /\ Ev.cpar[i] = Ev.par[i] /\ Ev.lim[i] = tab.lim[wr[w].par + 1]
       /\ TRUE = \A w \in Wr : LET i == w - 10 IN
            (Real(w) /\ Ev.par[i] = -1 /\ Ev.at[i] # 0) => Ev.lim[i] = tab.unit
       /\ UNCHANGED wvars /\ K
Next == Begin \/ Table \/ ESeed \/ ERaw \/ EAsg \/ EMake \/ EDraw \/ EWraw \/ EWseed \/ ESetp \/ ECopy \/ Obs
Spec == Init /\ [][Next]_tvars
=============================================================================
