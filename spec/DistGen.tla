------------------------------ MODULE DistGen ------------------------------
(* Histories of DistAPI: simulated they give scripts for h_dist.cpp,          *)
(* enumerated they check the laws below with an arbitrary small F in the      *)
(* place of the distribution.                                                 *)
EXTENDS DistAPI, TLC, Json
CONSTANTS Sets, Ops, MaxLen, Emit
D == 1..3
P == 1..2
E == 1..2
Seeds == 1..3
VARIABLES hist, kind, mem
vars == <<dob, pob, eng, text, hist, kind, mem>>

(* a stand-in for the value function: any function of set, seed and position *)
F(v, x) == [val |-> (7 * v + 3 * x.s + x.p) % 11, used |-> 1 + ((v + x.s + x.p) % 3)]
Log(x) == hist' = Append(hist, x)
Keep == UNCHANGED mem
Possible(k, t) == /\ k \in Ops
                  /\ k \in {"save", "savep", "mark"} => Len(t) < 4
                  /\ k = "load" => t # <<>> /\ Head(t).k = "dist"
                  /\ k = "loadp" => t # <<>> /\ Head(t).k = "param"
                  /\ k = "readmark" => t # <<>> /\ Head(t).k = "number"
Init == DistInit(D, P, E) /\ hist = <<>> /\ mem = {} /\ kind \in {k \in Ops : Possible(k, <<>>)}
(* every draw is remembered as set, engine state, result *)
Drawn(v, x) == LET f == F(v, eng[x]) IN Draws(x, f.used) /\ mem' = mem \cup {<<v, eng[x], f, -1>>}
(* a draw from an engine that throws instead of giving more than k values *)
Faulty(v, x, k) == LET f == F(v, eng[x])  g == IF f.used > k THEN [val |-> -1, used |-> k] ELSE f
                   IN Fault(x, g.used) /\ mem' = mem \cup {<<v, eng[x], g, k>>}
Step == CASE kind = "new"   -> \E d \in D, v \in Sets, h \in {"new", "newp"} : New(d, v) /\ Log(<<h, d, v>>) /\ Keep
          [] kind = "mkp"   -> \E q \in P, v \in Sets : MakeParam(q, v) /\ Log(<<"mkp", q, v>>) /\ Keep
          [] kind = "param" -> \E d \in D, q \in P : SetParam(d, q) /\ Log(<<"param", d, q>>) /\ Keep
          [] kind = "getp"  -> \E d \in D, q \in P : GetParam(q, d) /\ Log(<<"getp", q, d>>) /\ Keep
          [] kind = "reset" -> \E d \in D : Reset(d) /\ Log(<<"reset", d, 0>>) /\ Keep
          [] kind = "copy"  -> \E a \in D, b \in D, h \in {"copy", "assign", "move"} : (h = "assign" \/ a # b) /\ Copy(a, b) /\ Log(<<h, a, b>>) /\ Keep
          [] kind = "swap"  -> \E a \in D, b \in D : a < b /\ Swap(a, b) /\ Log(<<"swap", a, b>>) /\ Keep
          [] kind = "draw"  -> \E d \in D, x \in E : Drawn(dob[d], x) /\ Log(<<"draw", d, x>>)
          [] kind = "drawp" -> \E d \in D, x \in E, q \in P : Drawn(pob[q], x) /\ Log(<<"drawp", d, 10 * q + x>>)
          [] kind = "fault" -> \E d \in D, x \in E, k \in 0..2 : Faulty(dob[d], x, k) /\ Log(<<"fault", d, 10 * k + x>>)
          [] kind = "reseed" -> \E x \in E, s \in Seeds : Reseed(x, s) /\ Log(<<"reseed", x, s>>) /\ Keep
          [] kind = "ecopy" -> \E x \in E, y \in E : x # y /\ CopyEngine(x, y) /\ Log(<<"ecopy", x, y>>) /\ Keep
          [] kind = "save"  -> \E d \in D : Save(d) /\ Log(<<"save", d, 0>>) /\ Keep
          [] kind = "savep" -> \E q \in P : SaveParam(q) /\ Log(<<"savep", q, 0>>) /\ Keep
          [] kind = "mark"  -> Mark /\ Log(<<"mark", 0, 0>>) /\ Keep
          [] kind = "load"  -> \E d \in D : Load(d) /\ Log(<<"load", d, 0>>) /\ Keep
          [] kind = "loadp" -> \E q \in P : LoadParam(q) /\ Log(<<"loadp", q, 0>>) /\ Keep
          [] kind = "readmark" -> ReadMark /\ Log(<<"readmark", 0, 0>>) /\ Keep
Next == Len(hist) < MaxLen /\ Step /\ kind' \in {k \in Ops : Possible(k, text')}
Done == Len(hist) = MaxLen /\ Emit /\ PrintT("SCRIPT " \o ToJson(hist)) /\ Log(<<"end", 0, 0>>) /\ UNCHANGED <<dvars, kind, mem>>
Spec == Init /\ [][Next \/ Done]_vars

TypeOK == /\ dob \in [D -> Sets] /\ pob \in [P -> Sets]
          /\ \A x \in E : eng[x].s \in Seeds /\ eng[x].p \in Nat
          /\ \A i \in DOMAIN text : text[i].k \in {"dist", "param", "number"} /\ text[i].v \in Sets
(* the result of a draw is a function of parameter set and engine state *)
Functional == \A a, b \in mem : a[1] = b[1] /\ a[2] = b[2] /\ a[4] = b[4] => a[3] = b[3]
(* an engine stands where the draws from its seed can bring it *)
Reach(x) == x.p = 0 \/ \E m \in mem : m[2].s = x.s /\ m[2].p + m[3].used = x.p
Reachable == \A x \in E : Reach(eng[x])
=============================================================================
