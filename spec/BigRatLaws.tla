----------------------------- MODULE BigRatLaws -----------------------------
(* The number tower every other module stands on, checked exhaustively on a
   small universe: integers embed homomorphically, field and order laws hold,
   and the transcendental operators satisfy their identities. *)
EXTENDS Integers, Sequences, BigRat
VARIABLES a, b, c
I == -4..4
Num == {RDiv(x, y) : x \in -3..3, y \in 1..3}
Eps == "1e-40"
Init == a \in Num /\ b \in Num /\ c \in Num
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Embeds == \A x, y \in I : /\ RAdd(x, y) = RNorm(x + y)
                          /\ RSub(x, y) = RNorm(x - y)
                          /\ RMul(x, y) = RNorm(x * y)
                          /\ RLeq(x, y) = (x <= y)
                          /\ RLt(x, y) = (x < y)
                          /\ REq(x, y) = (x = y)
                          /\ (y > 0 => RFloor(RDiv(x, y)) = RNorm(x \div y))
ASSUME Embeds
ASSUME RNorm("0.125") = "1/8" /\ RNorm("1.5e-2") = "3/200" /\ RNorm("-6/4") = "-3/2" /\ RNorm("2e3") = "2000"
ASSUME ~RLeq("nan", 1) /\ ~RLeq(1, "nan") /\ RAdd(1, "inf") = "nan" /\ RDiv(1, 0) = "nan" /\ ~RIsNum("nan")
ASSUME RSum(<<1, "1/2", "-0.25">>) = "5/4" /\ RSum(<<>>) = "0"
ASSUME RSeqClose(<<1, 2>>, <<"1.1", 2>>, "1/10") /\ ~RSeqClose(<<1, 2>>, <<"1.11", 2>>, "1/10") /\ ~RSeqClose(<<1>>, <<1, 1>>, 9)
Field == /\ RAdd(a, RAdd(b, c)) = RAdd(RAdd(a, b), c)
         /\ RMul(a, RMul(b, c)) = RMul(RMul(a, b), c)
         /\ RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
         /\ RAdd(a, b) = RAdd(b, a) /\ RMul(a, b) = RMul(b, a)
         /\ RAdd(a, RNeg(a)) = "0" /\ RSub(a, b) = RAdd(a, RNeg(b))
         /\ (a # "0" => RMul(RDiv(b, a), a) = b)
         /\ RSum(<<a, b, c>>) = RAdd(a, RAdd(b, c))
Order == /\ RLeq(a, b) \/ RLeq(b, a)
         /\ RLt(a, b) = ~RLeq(b, a)
         /\ (RLeq(a, b) /\ RLeq(b, c) => RLeq(a, c))
         /\ (RLeq(a, b) => RLeq(RAdd(a, c), RAdd(b, c)))
         /\ RLeq("0", RAbs(a)) /\ RLeq(RAbs(RAdd(a, b)), RAdd(RAbs(a), RAbs(b)))
         /\ RClose(a, b, RAbs(RSub(a, b)))
Trans == /\ RSqrt(RMul(a, a)) = RAbs(a)
         /\ RClose(RAdd(RMul(RSin(a), RSin(a)), RMul(RCos(a), RCos(a))), 1, Eps)
         /\ RClose(RSin(RAdd(a, b)), RAdd(RMul(RSin(a), RCos(b)), RMul(RCos(a), RSin(b))), Eps)
         /\ RClose(RExp(RAdd(a, b)), RMul(RExp(a), RExp(b)), "1e-38")
         /\ RClose(RSin(RPi), 0, Eps) /\ RClose(RExp(1), "2.718281828459045235360287471352662497757247", Eps)
         /\ RClose(RMul(RSqrt(RAbs(a)), RSqrt(RAbs(a))), RAbs(a), Eps)
=============================================================================
