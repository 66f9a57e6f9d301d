------------------------------ MODULE WrapGen -------------------------------
(* Histories of Wrappers: scripts for h_wrap.cpp, and (with all uses one value *)
(* long) the laws of sharing and independence.                                *)
EXTENDS Wrappers, TLC, Json
CONSTANTS Kinds, MaxPos, MaxLen, Emit
VARIABLES hist, kind, last
vars == <<cell, wr, hist, kind, last>>
Log(x) == hist' = Append(hist, x)
Ops == {"seed", "raw", "easg", "make", "draw", "arg", "wraw", "wseed", "setp", "copy", "wasg"}
Hold(k) == IF k \in {"vgval", "u01val"} THEN "val" ELSE "ref"
Typ == [w \in Wr |-> ""]
(* last: what was touched, for the laws; typ: the concrete wrapper types, for assignment *)
Init == WInit /\ hist = <<>> /\ kind = "make" /\ last = [op |-> "", pre |-> cell, typ |-> Typ]
Note(op, t) == last' = [op |-> op, pre |-> cell, typ |-> t]
Keep(op) == Note(op, last.typ)
Room(c) == cell[c].p < MaxPos
Step ==
  CASE kind = "seed" -> \E x \in E, s \in 1..3 : Seed(x, s) /\ Log(<<"seed", x, ToString(s)>>) /\ Keep(<<"cell", x>>)
    [] kind = "raw"  -> \E x \in E, k \in 1..3 : Raw(x, k) /\ Log(<<"raw", x, ToString(k)>>) /\ Keep(<<"cell", x>>)
    [] kind = "easg" -> \E x \in E, y \in E : x # y /\ Assign(x, y) /\ Log(<<"easg", x, ToString(y)>>) /\ Keep(<<"cell", y>>)
    [] kind = "make" -> \E w \in Wr, x \in E, v \in 0..2, k \in Kinds : (IF Hold(k) = "val" THEN MakeVal(w, x, v) ELSE MakeRef(w, x, v))
                        /\ Log(<<"make", w, k \o "," \o ToString(x) \o "," \o ToString(v)>>) /\ Note(<<"cell", w>>, [last.typ EXCEPT ![w] = k])
    [] kind = "draw" -> \E w \in Wr : Draw(w, 1) /\ Log(<<"draw", w, "">>) /\ Keep(<<"cell", On(w)>>)
    [] kind = "arg"  -> \E w \in Wr, v \in 0..2 : Draw(w, 1) /\ Log(<<"arg", w, ToString(v)>>) /\ Keep(<<"cell", On(w)>>)
    [] kind = "wraw" -> \E w \in Wr, k \in 1..2 : WRaw(w, k) /\ Log(<<"wraw", w, ToString(k)>>) /\ Keep(<<"cell", On(w)>>)
    [] kind = "wseed" -> \E w \in Wr, s \in 1..3 : WSeed(w, s) /\ Log(<<"wseed", w, ToString(s)>>) /\ Keep(<<"cell", On(w)>>)
    [] kind = "setp" -> \E w \in Wr, v \in 0..2 : SetPar(w, v) /\ Log(<<"setp", w, ToString(v)>>) /\ Keep(<<"none", 0>>)
    [] kind = "copy" -> \E a \in Wr, b \in Wr : a # b /\ CopyW(a, b) /\ Log(<<"copy", a, ToString(b)>>) /\ Note(<<"cell", b>>, [last.typ EXCEPT ![b] = last.typ[a]])
    [] kind = "wasg" -> \E a \in Wr, b \in Wr : a # b /\ last.typ[a] = last.typ[b] /\ last.typ[a] \in {"vgval", "vgptr", "u01val", "u01ptr"} /\ CopyW(a, b)
                        /\ Log(<<"wasg", a, ToString(b)>>) /\ Keep(<<"cell", b>>)
Small == \A c \in Cells : cell[c].p <= MaxPos
CanPick(k) == CASE k \in {"draw", "arg", "wraw", "wseed", "setp", "copy"} -> \E w \in Wr : Real(w)'
                [] k = "wasg" -> \E a \in Wr, b \in Wr : a # b /\ last'.typ[a] = last'.typ[b] /\ last'.typ[a] \in {"vgval", "vgptr", "u01val", "u01ptr"}
                [] OTHER -> TRUE
Next == Len(hist) < MaxLen /\ Small /\ Step /\ kind' \in {k \in Ops : CanPick(k)}
Done == Len(hist) = MaxLen /\ Emit /\ PrintT("SCRIPT " \o ToJson(hist)) /\ Log(<<"end", 0, "">>) /\ UNCHANGED <<cell, wr, kind, last>>
Spec == Init /\ [][Next \/ Done]_vars
View == <<cell, wr, kind, last>>
(* only the cell the operation named changes; a value-holding wrapper's cell is its own *)
OnlyNamed == \A c \in Cells : cell[c] # last.pre[c] => last.op = <<"cell", c>>
Own == \A w \in Wr : (wr[w].kind = "val" => On(w) = w) /\ (wr[w].kind = "ref" => On(w) \in E)
=============================================================================
