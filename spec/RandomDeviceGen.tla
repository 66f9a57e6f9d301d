-------------------------- MODULE RandomDeviceGen ---------------------------
(* The library's read loop on top of RandomDevice, against every way the       *)
(* operating system can answer; every complete behaviour is emitted as the     *)
(* list of the system's answers, for replay on the real code.                  *)
EXTENDS RandomDevice, TLC, Json
CONSTANTS MaxValues, Emit
VARIABLES hist, vals, got
vars == <<rdvars, hist, vals, got>>
Ans(a) == hist' = Append(hist, a)
K == UNCHANGED <<vals, got>>
Init == RdInit /\ hist = <<>> /\ vals = 0 /\ got = <<>>
Ctor == \/ opens = 0 /\ call = "none" /\ hist = <<>> /\ Begin("ctor") /\ UNCHANGED hist /\ K
        \/ fault = "ok" /\ ((OpenOK /\ Ans("open")) \/ (OpenFail /\ Ans("nofile"))) /\ K
        \/ call = "ctor" /\ (Throw \/ Return) /\ UNCHANGED hist /\ K
Draw == \/ vals < MaxValues /\ fd = "open" /\ Begin("value") /\ vals' = vals + 1 /\ UNCHANGED <<hist, got>>
        \/ call = "value" /\ fault = "ok" /\ Len(have) < 4 /\ \E k \in 1..(4 - Len(have)) : Read(4 - Len(have), k) /\ Ans(ToString(k)) /\ K
        \/ call = "value" /\ fault = "ok" /\ Len(have) < 4 /\ \E f \in Faults : ReadFault(f) /\ Ans(f) /\ K
        \/ call = "value" /\ Len(have) >= 4 /\ Value(SubSeq(have, 1, 4)) /\ got' = Append(got, SubSeq(have, 1, 4)) /\ UNCHANGED <<hist, vals>>
        \/ call = "value" /\ Throw /\ have' = <<>> /\ UNCHANGED <<hist, vals, got>>
End == \/ vals = MaxValues /\ Begin("dtor") /\ UNCHANGED hist /\ K
       \/ Close /\ UNCHANGED hist /\ K
       \/ call = "dtor" /\ Return /\ UNCHANGED hist /\ K
Finished == call = "none" /\ (fd = "closed" \/ (opens = 0 /\ fault = "err"))
Say == Finished /\ Emit /\ vals >= 0 /\ PrintT("SCRIPT " \o ToJson(hist)) /\ vals' = -1 /\ UNCHANGED <<rdvars, hist, got>>
Next == Ctor \/ Draw \/ End \/ Say
Spec == Init /\ [][Next]_vars
(* values are stretches of the source, in order, without overlap, and without a gap where nothing failed *)
At(v) == {p \in 0..(pos - 4) : v = [i \in 1..4 |-> Byte(p + i - 1)]}
Exact == /\ \A i \in 1..Len(got) : At(got[i]) # {}
         /\ \A i \in 1..(Len(got) - 1) : \E p \in At(got[i]), q \in At(got[i + 1]) : p + 4 <= q
         /\ (\A i \in 1..Len(hist) : hist[i] \notin Faults) => pos = 4 * Len(got) + Len(have)
=============================================================================
