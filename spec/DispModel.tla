------------------------------ MODULE DispModel -------------------------------
(* Exhaustive over a grid of the upper half plane: the Faddeeva function that
   C16 computes with.  Series and continued fraction agree where both apply,
   w(-conj z) = conj w(z), w' = -2 z w + 2i/sqrt(pi), and the known values on the
   imaginary axis (real, decreasing, 1 at the origin).  The machine walks along a
   ray from the origin outwards, keeping the last value. *)
EXTENDS Dispersion
CONSTANTS Rays, MaxR
RayDirs == << <<"1", "0">>, <<"0.96", "0.28">>, <<"0.6", "0.8">>, <<"0", "1">>, <<"-0.8", "0.6">> >>
VARIABLES ray, r, prev, cur
vars == <<ray, r, prev, cur>>
Step == "0.75"
Z(k, n) == C(RMul(RMul(n, Step), Rays[k][1]), RMul(RMul(n, Step), Rays[k][2]))
Init == ray \in DOMAIN Rays /\ r = 0 /\ prev = COne /\ cur = COne
Next == r < MaxR /\ r' = r + 1 /\ UNCHANGED ray /\ prev' = cur /\ cur' = CRound(Faddeeva(Z(ray, r + 1)), 40)
Spec == Init /\ [][Next]_vars
Zc == Z(ray, r)
Abs2 == CAbs2(Zc)
BothWays == (RLt(60, Abs2) /\ RLt(Abs2, 100)) => CClose(FadSeries(Zc), FadFraction(Zc), "1e-14")
Mirror == CClose(Faddeeva(<<RNeg(Zc[1]), Zc[2]>>), CConj(cur), "1e-20")
H == "1e-8"
Slope == LET d == CScale(RDiv(1, RMul(2, H)), CSub(Faddeeva(CAdd(Zc, C(H, 0))), Faddeeva(CSub(Zc, C(H, 0)))))
         IN RLt(Abs2, 70) => CClose(d, CAdd(CScale(-2, CMul(Zc, cur)), C(0, RDiv(2, SqrtPi))), "1e-12")
Passive == RLeq(0, cur[1])
OnAxis == (REq(Zc[1], 0) /\ r > 0) => RLt(cur[1], prev[1]) /\ RLt(RAbs(cur[2]), "1e-30")
(* the occupation difference of graphene is odd-symmetric around the Fermi level in the sense G in [0, 1], increasing *)
Occupied == r > 0 => LET g == Occ(RMul(r, "0.05"), "0.3", "0.0258") p == Occ(RMul(r - 1, "0.05"), "0.3", "0.0258") IN RLeq(0, g) /\ RLeq(g, 1) /\ RLeq(p, g)
=============================================================================
