------------------------------- MODULE BigRat -------------------------------
(* Exact rational arithmetic on numbers written as strings ("3/7", "-2",
   "0.125", "1.5e-7"), so that specifications are not bound by TLC's 32-bit
   integers and measured floating point numbers enter a trace unrounded.
   TLC evaluates every operator with the override java/BigRat.java; the bodies
   below only fix the arities (BigRatLaws.tla checks the override against
   TLC's own integers and the field laws).  "nan" is absorbing; comparisons
   with it are FALSE. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
RNorm(a)        == CHOOSE s \in STRING : TRUE   \* canonical form
RAdd(a, b)      == CHOOSE s \in STRING : TRUE
RSub(a, b)      == CHOOSE s \in STRING : TRUE
RMul(a, b)      == CHOOSE s \in STRING : TRUE
RDiv(a, b)      == CHOOSE s \in STRING : TRUE   \* "nan" when b = 0
RNeg(a)         == CHOOSE s \in STRING : TRUE
RAbs(a)         == CHOOSE s \in STRING : TRUE
RLeq(a, b)      == CHOOSE s \in BOOLEAN : TRUE
RLt(a, b)       == CHOOSE s \in BOOLEAN : TRUE
REq(a, b)       == CHOOSE s \in BOOLEAN : TRUE
RIsNum(a)       == CHOOSE s \in BOOLEAN : TRUE
RClose(a, b, t) == CHOOSE s \in BOOLEAN : TRUE  \* |a-b| <= t
RSeqClose(s, u, t) == CHOOSE r \in BOOLEAN : TRUE  \* same length and element-wise RClose
RSum(s)         == CHOOSE r \in STRING : TRUE
RRound(a, k)    == CHOOSE s \in STRING : TRUE   \* to k decimal places
RFloor(a)       == CHOOSE s \in STRING : TRUE
RSqrt(a)        == CHOOSE s \in STRING : TRUE   \* exact on squares, else 60 digits
RExp(a)         == CHOOSE s \in STRING : TRUE
RSin(a)         == CHOOSE s \in STRING : TRUE
RCos(a)         == CHOOSE s \in STRING : TRUE
RPi             == CHOOSE s \in STRING : TRUE
=============================================================================
