----------------------------- MODULE EngineLaws -----------------------------
(* Laws of the recurrences themselves, checked without the implementation:   *)
(* every small engine is walked from every state TLC reaches, and at each    *)
(*   - one jump of z equals z single steps (z counted along the walk),       *)
(*   - the value lies within MinOf .. MaxOf,                                 *)
(*   - the state is never one the family forbids.                            *)
EXTENDS Engines
Catalog == JsonDeserialize("catalog.json")
CONSTANTS Names, Depth, Stride   \* Stride: how often the jump law is evaluated
VARIABLES eng, seed, st, n, val
vars == <<eng, seed, st, n, val>>
D == Catalog[eng]
Init == /\ eng \in Names /\ seed \in 0..7
        /\ st = InitInt(Catalog[eng], N2W(seed)) /\ n = 0 /\ val = MinOf(Catalog[eng])
Next == /\ n < Depth
        /\ LET r == DrawN(D, st, 1) IN val' = r[1][1] /\ st' = r[2]
        /\ n' = n + 1 /\ UNCHANGED <<eng, seed>>
Spec == Init /\ [][Next]_vars
InRange == Le(MinOf(D), val) /\ Le(val, MaxOf(D))
(* what the future depends on: the low r bits of the oldest word of a twister do not matter *)
Same(d, s, t) == IF d.k = "mt" THEN DrawN(d, s, d.n)[1] = DrawN(d, t, d.n)[1] ELSE s = t
JumpLaw == (JumpOK(D) /\ n % Stride = 0) => Same(D, Jump(D, InitInt(D, N2W(seed)), N2W(n)), st)
(* two jumps compose *)
Compose == (JumpOK(D) /\ n = Depth) =>
             \A z \in {N2W(1), N2W(1000), HL(5, 7), HL(1073741823, 1073741823)} :
                Same(D, Jump(D, Jump(D, st, z), Add(z, N2W(3))), Jump(D, st, Add(Add(z, z), N2W(3))))
=============================================================================
