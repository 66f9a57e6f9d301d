---------------------------- MODULE EngineTrace ----------------------------
(* Validates recorded histories of one engine object at a time against the  *)
(* recurrences of Engines: every value, every seeding, every bound.          *)
EXTENDS Engines, TraceBase

Catalog == JsonDeserialize("catalog.json")

VARIABLES eng,       \* name of the engine, "" before the first event
          st,        \* its abstract state
          cnt        \* number of values drawn or discarded since seeding

vars == <<l, eng, st, cnt>>
D == Catalog[eng]
Ws(s) == Force([i \in DOMAIN s |-> W(s[i])])
(* zero may be represented by 2^61-1 in MIXMAX *)
Canon(d, s) == IF d.k # "mixmax" THEN Ws(s)
               ELSE Force([i \in DOMAIN s |-> IF W(s[i]) = M61 THEN Zero ELSE W(s[i])])

Source(r) == CASE r.t = "seq" -> [t |-> "seq", v |-> Ws(r.v)]
               [] r.t = "arith" -> [t |-> "arith", s |-> W(r.s)]
               [] r.t = "words" -> [t |-> "words", v |-> Ws(r.v)]
WordsOf(d, r) == CASE r.t = "arith" -> ArithWords(W(r.s), NWords(d))
                   [] r.t = "words" -> Ws(r.v)

Init == l = 1 /\ eng = "" /\ st = Zero /\ cnt = 0
Begin == IsEvent("begin") /\ eng' = "" /\ st' = Zero /\ cnt' = 0
(* construction or re-seeding of the object, whatever it was before *)
Seed == /\ IsEvent("seed")
        /\ eng' = Ev.eng
        /\ cnt' = 0
        /\ LET d == Catalog[Ev.eng] IN
           CASE Ev.route = "default" -> st' = InitDefault(d)
             [] Ev.route = "int" -> st' = SeedInt(d, W(Ev.v))
             [] Ev.route = "seq" -> st' = InitSeq(d, Source(Ev))
             [] Ev.route = "iter" ->
                  /\ Ev.used = NWords(d)                   \* consumed exactly what is needed
                  /\ st' = InitWords(d, WordsOf(d, Ev), 1)
             [] Ev.route = "two" ->        \* one seed for each component
                  st' = [b1 |-> InitInt(d.b1, W(Ev.v)), b2 |-> InitInt(d.b2, W(Ev.v2))]
             [] Ev.route = "four" ->       \* mixmax: cluster, machine, run, stream
                  st' = [v |-> MixSeed(Ws(Ev.v)), i |-> 2]
(* too few words: reported, and never a seeded object *)
Short == /\ IsEvent("short")
         /\ Ev.have < NWords(Catalog[Ev.eng])
         /\ Ev.exc = "invalid_argument"
         /\ UNCHANGED <<eng, st, cnt>>
Draw == /\ IsEvent("draw")
        /\ \E r \in {DrawN(D, st, Len(Ev.vals))} : Canon(D, Ev.vals) = r[1] /\ st' = r[2]
        /\ cnt' = cnt + Len(Ev.vals)
        /\ UNCHANGED eng
(* the harness drew n values and kept only the extremes *)
Skip == /\ IsEvent("skip")
        /\ st' = SkipN(D, st, Ev.n)
        /\ cnt' = cnt + Ev.n
        /\ UNCHANGED eng
(* discard(z), exactly *)
Discard == /\ IsEvent("discard")
           /\ st' = IF JumpOK(D) THEN Jump(D, st, W(Ev.z)) ELSE SkipN(D, st, W2N(W(Ev.z)))
           /\ cnt' = 0
           /\ UNCHANGED eng
Bounds == /\ IsEvent("bounds")
          /\ LET d == Catalog[Ev.eng] IN
             /\ W(Ev.min) = MinOf(d)
             /\ W(Ev.max) = MaxOf(d)
          /\ UNCHANGED <<eng, st, cnt>>
(* the smallest and largest of a long run of values *)
Extremes == /\ IsEvent("range")
         /\ LET d == Catalog[Ev.eng] IN
            /\ Le(MinOf(d), W(Ev.lo)) /\ Le(W(Ev.hi), MaxOf(d))
            /\ Ev.inunit                     \* real-valued engines: all in [0, 1)
         /\ UNCHANGED <<eng, st, cnt>>
(* base(): a copy of the base engine of an adaptor, drawn from *)
Base == /\ IsEvent("base")
        /\ TRUE = LET b == D.base IN Canon(b, Ev.vals) = DrawN(b, IF D.k = "ind" THEN st ELSE st.b, Len(Ev.vals))[1]
        /\ UNCHANGED <<eng, st, cnt>>

Next == Begin \/ Seed \/ Short \/ Draw \/ Skip \/ Discard \/ Bounds \/ Extremes \/ Base
Spec == Init /\ [][Next]_vars

(* the state never is one the family forbids *)
RECURSIVE Allowed(_, _)
Allowed(d, s) ==
  CASE d.k = "lcg" -> ~(d.c = Zero /\ s = Zero)
    [] d.k = "lfsr" -> ~Lt(s, PowW(d.w - d.kk))
    [] d.k = "mt" -> Shr(s[1], d.r) # Zero \/ \E i \in 2..d.n : s[i] # Zero
    [] d.k = "discard" -> Allowed(d.base, s.b)
    [] d.k = "shuffle" -> Allowed(d.base, s.b)
    [] d.k = "ind" -> Allowed(d.base, s)
    [] d.k \in {"addc", "xorc"} -> Allowed(d.b1, s.b1) /\ Allowed(d.b2, s.b2)
    [] OTHER -> TRUE
NotForbidden == eng # "" => Allowed(D, st)
=============================================================================
