-------------------------------- MODULE Qrng --------------------------------
(***************************************************************************)
(* Quasi-random engines as positions in a fixed sequence of vectors.          *)
(*                                                                         *)
(* An engine of dimension d stands at <<n, j>>: the next value is coordinate  *)
(* j (from 0) of vector n.  There are len vectors; <<len, 0>> is the end.  Every  *)
(* operation only moves the position, and one that would leave the sequence   *)
(* is refused and moves nothing.  n, len and distances are words.                *)
(***************************************************************************)
EXTENDS Words

VARIABLES obj,      \* engine object -> [d |-> dimension, n |-> vector, j |-> coordinate]
          text,     \* a text stream: the saved positions
          len         \* number of vectors in the sequence
qvars == <<obj, text, len>>

At(d, n, j) == [d |-> d, n |-> n, j |-> j]
Start(d) == At(d, Zero, 0)
(* the position z coordinates further on *)
Ahead(x, z) == LET dm == DivMod(z, N2W(x.d))
                   k  == x.j + W2N(dm[2])
               IN At(x.d, Add(x.n, IF k >= x.d THEN Add(dm[1], One) ELSE dm[1]), k % x.d)
InSeq(x) == Lt(x.n, len) \/ (x.n = len /\ x.j = 0)
AtEnd(x) == x.n = len
Move(o, x) == obj' = [obj EXCEPT ![o] = x] /\ UNCHANGED <<text, len>>
Refuse(o)  == o \in DOMAIN obj /\ UNCHANGED qvars

New(o, d)     == Move(o, Start(d))
SeedOK(n)     == Lt(n, len)
Seed(o, n)    == SeedOK(n) /\ Move(o, At(obj[o].d, n, 0))
SeedBad(o, n) == ~SeedOK(n) /\ Refuse(o)
Draw(o, z)    == InSeq(Ahead(obj[o], z)) /\ Move(o, Ahead(obj[o], z))        \* z values taken or skipped
DrawBad(o, z) == ~InSeq(Ahead(obj[o], z)) /\ Refuse(o)
Copy(a, b)    == Move(b, obj[a])
Swap(a, b)    == obj' = [obj EXCEPT ![a] = obj[b], ![b] = obj[a]] /\ UNCHANGED <<text, len>>
Save(o)       == text' = Append(text, obj[o]) /\ UNCHANGED <<obj, len>>
Load(o)       == text # <<>> /\ obj' = [obj EXCEPT ![o] = Head(text)] /\ text' = Tail(text) /\ UNCHANGED len
Equal(a, b)   == obj[a] = obj[b]
=============================================================================
