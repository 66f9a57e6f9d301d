------------------------------ MODULE LawModel ------------------------------
(* The laws of the distribution functions themselves: known values,          *)
(* monotonicity, symmetry, limits and identities between families.           *)
EXTENDS Laws, TLC

Near(a, b) == FLt(IF FLt(a, b) THEN FSub(b, a) ELSE FSub(a, b), <<0, 64, 0, 0, 0, 0>>)        \* 2^-30
NearS(s, t) == LET d == SSub(s, t) IN FLt(d[2], <<0, 64, 0, 0, 0, 0>>)
Near24(a, b) == FLt(IF FLt(a, b) THEN FSub(b, a) ELSE FSub(a, b), <<0, 0, 1, 0, 0, 0>>)
N24(n) == FShr(FromInt(n), 24)
VARIABLE st
Arith == /\ Near(ExpPos(LN2), FromInt(2)) /\ Near(ExpPos(One), FromRat(271801, 99990))
         /\ \A k \in 1..30 : NearS(Ln(ExpPos(FromRat(k, 7))), Pos(FromRat(k, 7)))
         /\ \A k \in 1..30 : Near(FMul(ExpPos(FromRat(k, 7)), ExpNeg(FromRat(k, 7))), One)
         /\ \A k \in 1..40 : Near(FDiv(FMulInt(PI, k), PI), FromInt(k)) /\ Near(FMul(Sqrt(FromInt(k)), Sqrt(FromInt(k))), FromInt(k))
         /\ Near(FMulInt(Atan(One), 4), PI) /\ Near(FAdd(Atan(FromRat(1, 2)), Atan(FromRat(1, 3))), Atan(One))
         /\ \A k \in 1..9 : NearS(LnGamma(k + 1, 1), SAdd(LnGamma(k, 1), Ln(FromInt(k))))
         /\ NearS(LnGamma(1, 1), Pos(Zero)) /\ NearS(LnGamma(1, 2), Pos(FDivInt(Ln(PI)[2], 2)))
Conts == {<<"exponential", <<>>>>, <<"normal", <<>>>>, <<"lognormal", <<32, 48>>>>, <<"cauchy", <<>>>>, <<"weibull", <<160>>>>,
          <<"extreme_value", <<>>>>, <<"laplace", <<>>>>, <<"triangle", <<-64, 32, 192>>>>, <<"gamma", <<32>>>>, <<"gamma", <<600>>>>, <<"chi_squared", <<320>>>>,
          <<"beta", <<32, 160>>>>, <<"fisher_f", <<320, 448>>>>, <<"student_t", <<192>>>>, <<"sphere", <<2>>>>, <<"sphere", <<5>>>>,
          <<"non_central_chi_squared", <<192, 128>>>>, <<"hyperexponential", <<1, 2, 1, 64, 128, 32>>>>,
          <<"piecewise_constant", <<-64, 0, 32, 1, 3>>>>, <<"piecewise_linear", <<-64, 0, 32, 1, 0, 3>>>>}
Js == {-300, -64, -31, -1, 0, 1, 17, 64, 65, 150, 400}
Monotone(c) == \A j \in Js, i \in Js : i < j => LET a == Cont(c[1], c[2], i)
                                                    b == Cont(c[1], c[2], j)
                                                IN (FLe(a, b) \/ Near(a, b)) /\ (FLe(b, One) \/ Near(b, One))
Sym(c) == \A j \in {1, 30, 64, 200} : Near(FAdd(Cont(c[1], c[2], j), Cont(c[1], c[2], -j)), One)
Known == /\ Near24(Cont("normal", <<>>, 128), N24(14115423)) /\ Near24(Cont("student_t", <<192>>, 128), N24(13497252))
         /\ \A j \in {4, 16, 40} : /\ Near(Cont("gamma", <<64>>, j), Cont("exponential", <<>>, j))
                                    /\ Near(Cont("weibull", <<64>>, j), Cont("exponential", <<>>, j))
                                    /\ Near(Cont("chi_squared", <<128>>, 2 * j), Cont("exponential", <<>>, j))
                                    /\ Near(Cont("non_central_chi_squared", <<192, 0>>, j), Cont("chi_squared", <<192>>, j))
                                    /\ Near(Cont("student_t", <<64>>, j), Cont("cauchy", <<>>, j))
                                    \* the square of a standard normal, with and without a shift, and of a Student variable
                                    /\ Near(Cont("chi_squared", <<64>>, 2 * j), FSub(FMulInt(Phi(Pos(Sqrt(FromRat(j, 64)))), 2), One))
                                    /\ Near(Cont("fisher_f", <<64, 192>>, (j * j) * 2), FSub(FMulInt(Cont("student_t", <<192>>, 16 * j), 2), One))
                                    \* x = (z+1)^2 is a non-central chi squared with one degree of freedom and shift 1
                                    /\ LET r == Sqrt(FromRat(j, 128))
                                       IN Near(Cont("non_central_chi_squared", <<64, 64>>, j), FSub(Phi(SSub(Pos(r), Pos(One))), Phi(SNeg(Pos(FAdd(r, One))))))
         /\ \A j \in {-60, -20, 0, 33} : /\ Near(Cont("sphere", <<3>>, j), FromRat(128 + j, 256))                                   \* Archimedes
                                         /\ (j >= 0 => Near(Cont("beta", <<64, 64>>, j), FromRat(j, 128)) /\ Near(Cont("beta", <<128, 64>>, j), FromRat(j * j, 16384)))
MinI2(a, b) == IF a < b THEN a ELSE b
At(d, k) == DiscAt(d, k)
Disc == /\ LET b == DiscLaw("binomial", <<4, 1, 2>>, 4) IN Near(At(b, 0), FromRat(1, 16)) /\ Near(At(b, 1), FromRat(5, 16)) /\ Near(At(b, 2), FromRat(11, 16)) /\ Near(At(b, 4), One) /\ At(b, 5) = One /\ At(b, -1) = Zero
        /\ LET a == DiscLaw("negative_binomial", <<1, 1, 3>>, 90)
               b == DiscLaw("geometric", <<1, 3>>, 60)
           IN \A k \in 0..60 : Near(At(a, k), At(b, k))
        /\ \A m \in {1, 160, 640, 6400} : LET q == DiscLaw("poisson", <<m>>, 60) IN \A k \in {0, 1, 2, 5, 10, 20, 90, 110} : Near(At(q, k), FSub(One, GammaP(k + 1, 1, FromRat(m, 64))))
        /\ LET q == DiscLaw("binomial", <<20, 3, 10>>, 20) IN \A k \in 0..19 : Near(At(q, k), FSub(One, BetaI(k + 1, 20 - k, 1, FromRat(3, 10))))
        /\ LET q == DiscLaw("binomial", <<400, 7, 8>>, 20) IN \A k \in {320, 345, 350, 351, 380} : Near(At(q, k), FSub(One, BetaI(k + 1, 400 - k, 1, FromRat(7, 8))))
        /\ LET q == DiscLaw("negative_binomial", <<5, 1, 4>>, 300) IN \A k \in {0, 3, 10, 15, 40} : Near(At(q, k), BetaI(5, k + 1, 1, FromRat(1, 4)))
Init == st = 0
Check(k) == CASE k = 0 -> Arith [] k = 1 -> \A c \in Conts : Monotone(c) [] k = 2 -> \A c \in {<<"normal", <<>>>>, <<"cauchy", <<>>>>, <<"laplace", <<>>>>, <<"student_t", <<192>>>>, <<"sphere", <<5>>>>, <<"sphere", <<4>>>>} : Sym(c) [] k = 3 -> Known [] k = 4 -> Disc [] OTHER -> TRUE
Next == st < 5 /\ st' = st + 1
Spec == Init /\ [][Next]_st
LawsHold == Check(st)
=============================================================================
