---------------------------- MODULE RandomDevice ----------------------------
(***************************************************************************)
(* A random device reads the bytes of a source.  The source is an endless     *)
(* sequence of bytes; the operating system hands out the next few of them,    *)
(* or reports the end of the file, an interruption or an error.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES fd,      \* "none", "open" or "closed"
          pos,     \* bytes handed out by the source so far
          have,    \* bytes handed out but not part of a value yet
          fault,   \* what the last read reported: "ok", "eof", "intr", "err"
          opens, closes,
          call     \* the call in progress: "none", "ctor", "value", "dtor"
rdvars == <<fd, pos, have, fault, opens, closes, call>>

Byte(i) == (i * 37 + 11 + (i \div 7) * 101 + i \div 256) % 256      \* the source
Faults == {"eof", "intr", "err"}
RdInit == fd = "none" /\ pos = 0 /\ have = <<>> /\ fault = "ok" /\ opens = 0 /\ closes = 0 /\ call = "none"

Begin(c)  == /\ call = "none" /\ call' = c
             /\ CASE c = "ctor" -> fd = "none" [] OTHER -> fd = "open"
             /\ fault' = "ok" /\ UNCHANGED <<fd, pos, have, opens, closes>>
(* system calls made by the library *)
OpenOK    == call = "ctor" /\ fd = "none" /\ fd' = "open" /\ opens' = opens + 1 /\ UNCHANGED <<pos, have, fault, closes, call>>
OpenFail  == call = "ctor" /\ fd = "none" /\ fault' = "err" /\ UNCHANGED <<fd, pos, have, opens, closes, call>>
Read(n, k) == /\ call = "value" /\ fd = "open" /\ fault \in {"ok", "intr"} /\ 1 <= k /\ k <= n
              /\ have' = have \o [i \in 1..k |-> Byte(pos + i - 1)] /\ pos' = pos + k /\ fault' = "ok"
              /\ UNCHANGED <<fd, opens, closes, call>>
ReadFault(f) == /\ call = "value" /\ fd = "open" /\ fault \in {"ok", "intr"} /\ fault' = f
                /\ UNCHANGED <<fd, pos, have, opens, closes, call>>
Close     == /\ call = "dtor" /\ fd = "open" /\ fd' = "closed" /\ closes' = closes + 1
             /\ UNCHANGED <<pos, have, fault, opens, call>>
(* how calls end: a value is the next four bytes; an exception needs a reason   *)
(* (and may lose the bytes of an unfinished value)                             *)
Value(b)  == /\ call = "value" /\ fault = "ok" /\ Len(have) >= 4 /\ b = SubSeq(have, 1, 4)
             /\ have' = SubSeq(have, 5, Len(have)) /\ call' = "none" /\ UNCHANGED <<fd, pos, fault, opens, closes>>
Throw     == /\ call \in {"ctor", "value"} /\ fault # "ok" /\ call' = "none"
             /\ have' \in {have, <<>>} /\ UNCHANGED <<fd, pos, fault, opens, closes>>
(* a call for n values, of which bs were delivered before it returned or threw *)
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
Deliver(n, bs, threw) ==
             LET f == Flat(bs)  rest == SubSeq(have, Len(f) + 1, Len(have)) IN
             /\ call = "value" /\ Len(have) >= Len(f) /\ f = SubSeq(have, 1, Len(f)) /\ \A i \in 1..Len(bs) : Len(bs[i]) = 4
             /\ IF threw THEN fault # "ok" /\ Len(bs) < n ELSE fault = "ok" /\ Len(bs) = n
             /\ have' \in {rest} \cup (IF threw THEN {<<>>} ELSE {}) /\ call' = "none" /\ UNCHANGED <<fd, pos, fault, opens, closes>>
Return    == /\ \/ call = "ctor" /\ fd = "open"
                \/ call = "dtor" /\ fd = "closed"
             /\ call' = "none" /\ UNCHANGED <<fd, pos, have, fault, opens, closes>>

(* opened and closed once *)
Balanced == closes <= opens /\ opens <= 1 /\ (fd = "closed" => closes = 1) /\ (fd = "none" => opens = 0)
=============================================================================
