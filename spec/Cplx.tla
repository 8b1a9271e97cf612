-------------------------------- MODULE Cplx --------------------------------
(* Complex numbers <<re, im>> over BigRat. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
C(re, im)  == <<RNorm(re), RNorm(im)>>
CRe(z)     == z[1]
CIm(z)     == z[2]
CZero      == <<"0", "0">>
COne       == <<"1", "0">>
CI         == <<"0", "1">>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CConj(a)   == <<a[1], RNeg(a[2])>>
CNeg(a)    == <<RNeg(a[1]), RNeg(a[2])>>
CAbs2(a)   == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
CScale(r, a) == <<RMul(r, a[1]), RMul(r, a[2])>>
CDiv(a, b) == CScale(RDiv(1, CAbs2(b)), CMul(a, CConj(b)))
CEq(a, b)  == REq(a[1], b[1]) /\ REq(a[2], b[2])
CClose(a, b, t) == RClose(a[1], b[1], t) /\ RClose(a[2], b[2], t)
CRound(a, k) == <<RRound(a[1], k), RRound(a[2], k)>>
(* exp(i x) for real x, and exp(z) *)
CCis(x)    == <<RCos(x), RSin(x)>>
CExp(z)    == CScale(RExp(z[1]), CCis(z[2]))
(* principal square root (Re >= 0; on the negative real axis Im >= 0), 40 places *)
CSqrt(z) ==
  LET m == RSqrt(CAbs2(z))
      a == RSqrt(RDiv(RAdd(m, z[1]), 2))
      b == RSqrt(RDiv(RSub(m, z[1]), 2))
  IN IF RLt(z[2], 0) THEN <<a, RNeg(b)>> ELSE <<a, b>>
=============================================================================
