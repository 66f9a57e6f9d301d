--------------------------- MODULE UniformModel ----------------------------
(* The algorithm of UniformInt is fair: checked by exploring, for all small  *)
(* engine ranges and target ranges, every string of engine values, one       *)
(* level of the decision tree per step.                                      *)
EXTENDS UniformInt, FiniteSets, TLC

CONSTANTS MaxB, MaxR, MaxN, MaxLive

VARIABLES b, r,          \* b engine values 0..b-1, results 0..r
          n,             \* length of the strings considered
          live,          \* strings of length n on which the draw has not ended
          ends           \* <<string, result>> for the strings of length n on which it ends
vars == <<b, r, n, live, ends>>

Ws(s) == [i \in DOMAIN s |-> N2W(s[i])] \o <<>>
Outcome(s) == LET d == Draw(N2W(b - 1), N2W(r), Ws(s), 1)
              IN IF d[1] = 0 THEN -1
                 ELSE IF d[1] = Len(s) + 1 THEN W2N(d[2]) ELSE -2       \* -2: values left over

None == [s \in {} |-> 0]
Init == /\ b \in 2..MaxB /\ r \in 0..MaxR /\ n = 0 /\ live = {<<>>} /\ ends = None
Level == /\ n < MaxN /\ live # {} /\ Cardinality(live) * b <= MaxLive
         /\ n' = n + 1
         /\ LET out == [s \in {Append(s, u) : s \in live, u \in 0..(b - 1)} |-> Outcome(s)]
            IN /\ live' = {s \in DOMAIN out : out[s] = -1}
               /\ ends' = [s \in {s \in DOMAIN out : out[s] # -1} |-> out[s]]
         /\ UNCHANGED <<b, r>>
(* r = 0 ends without a value *)
Spec == Init /\ [][r > 0 /\ Level]_vars

InRange == \A s \in DOMAIN ends : ends[s] \in 0..r
(* equally many strings of each length for every result *)
Fairness == LET c == Cardinality(DOMAIN ends) \div (r + 1)
            IN \A v \in 0..r : Cardinality({s \in DOMAIN ends : ends[s] = v}) = c
(* the strings still undecided become a smaller and smaller share *)
Shrinks == (n > 0 /\ b - 1 >= r) => 2 * Cardinality(live) < b ^ n
=============================================================================
