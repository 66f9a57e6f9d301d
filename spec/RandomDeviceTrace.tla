-------------------------- MODULE RandomDeviceTrace -------------------------
(* Calls made on a real random_device and the system calls it made meanwhile. *)
EXTENDS RandomDevice, TraceBase
VARIABLE token
tvars == <<l, rdvars, token>>
K == UNCHANGED token
Init == l = 1 /\ RdInit /\ token = ""
Reset == fd' = "none" /\ pos' = 0 /\ have' = <<>> /\ fault' = "ok" /\ opens' = 0 /\ closes' = 0 /\ call' = "none"
EBegin == IsEvent("begin") /\ Reset /\ token' = ""
(* a new device; the one before was destroyed, or never came to be *)
EDevice == IsEvent("device") /\ call = "none" /\ (opens = closes) /\ Reset /\ token' = Ev.path
ECall  == IsEvent("call") /\ Begin(Ev.c) /\ K
EOpen  == IsEvent("open") /\ Ev.path = token /\ (IF Ev.ok THEN OpenOK ELSE OpenFail) /\ K
ERead  == IsEvent("read") /\ Ev.right /\ (IF Ev.k > 0 THEN Read(Ev.n, Ev.k) ELSE ReadFault(Ev.f)) /\ K
EClose == IsEvent("close") /\ Ev.right /\ Close /\ K
EValues == IsEvent("values") /\ (Ev.threw => Ev.right) /\ Deliver(Ev.n, Ev.bs, Ev.threw) /\ K
EThrow == IsEvent("throw") /\ Ev.right /\ call = "ctor" /\ Throw /\ K
EDone  == IsEvent("done") /\ Return /\ K
EFacts == IsEvent("facts") /\ Ev.min0 /\ Ev.max32 /\ Ev.entropy >= 0 /\ Ev.entropy <= 32 /\ UNCHANGED <<rdvars, token>>
Next == EBegin \/ EDevice \/ ECall \/ EOpen \/ ERead \/ EClose \/ EValues \/ EThrow \/ EDone \/ EFacts
Spec == Init /\ [][Next]_tvars
=============================================================================
