------------------------------ MODULE BigLaws ------------------------------
(* BigNat against the integers, and UniformBig against UniformInt, on        *)
(* numbers around the limb borders and on every small range.                 *)
EXTENDS UniformInt, UniformBig
VARIABLES x, y

RECURSIVE ToBig(_)
ToBig(n) == IF n = 0 THEN <<>> ELSE <<n % NB>> \o ToBig(n \div NB)

Nums == {0, 1, 2, 3, 7, 255, 32766, 32767, 32768, 32769, 65535, 65536, 98303, 98304, 1000003, 1073741822, 1073741823, 1073741824, 1073741825}
Init == x \in Nums /\ y \in Nums
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>

X == ToBig(x)
Y == ToBig(y)
Order == NLt(X, Y) <=> x < y
Sums == x < 1073741824 => /\ NAdd(X, Y) = NAdd(Y, X)
                          /\ NSub(NAdd(X, Y), Y) = X
                          /\ y < 1073741824 => NAdd(X, Y) = ToBig(x + y)
Quots == y > 0 => LET q == NQuoRem(X, Y)
                  IN q = <<ToBig(x \div y), ToBig(x % y)>> /\ NAdd(NMul(q[1], Y), q[2]) = X
(* products, squared again so that they pass 2^64 *)
Prods == LET p == NMul(X, Y)
         IN /\ p = NMul(Y, X)
            /\ x < 32768 /\ y < 32768 => p = ToBig(x * y)
            /\ y > 0 => NQuoRem(p, Y) = <<X, <<>>>>
            /\ y > 0 /\ x > 0 => LET s == NMul(p, p) IN NQuoRem(NAdd(s, NSub(X, NOne)), s) = <<NOne, NSub(X, NOne)>>
(* the two statements of the draw agree: every engine of 2..6 values, ranges to 26, all strings of three values *)
Draws == x = 0 /\ y = 0 =>
         \A br \in 1..5 : \A r \in 0..26 : \A us \in [1..3 -> 0..br] :
            LET a == Draw(N2W(br), N2W(r), [i \in 1..3 |-> N2W(us[i])], 1)
                b == BDraw(ToBig(br), ToBig(r), [i \in 1..3 |-> ToBig(us[i])], 1)
            IN a[1] = b[1] /\ (a[1] # 0 => \E v \in 0..r : a[2] = N2W(v) /\ b[2] = ToBig(v))
=============================================================================
