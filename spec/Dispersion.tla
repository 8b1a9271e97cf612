----------------------------- MODULE Dispersion ------------------------------
(* Closed-form optical constants, on the n + ik convention.
     Sellmeier     n^2 = 1 + C0 + sum C_i L^2 / (L^2 - P_i)      P_i = p_i^2 (formula 1) or p_i (formula 2)
     BBEv, BBCm    Brendel-Bormann: Gaussian-broadened Lorentz oscillators, via the Faddeeva function
     Sheet         graphene conductivity (Falkovsky/Kubo), in units of e^2/4hbar
   Coefficients are decimal strings; wave lengths in metres. *)
EXTENDS Integers, Sequences, BigRat, Cplx, TLC
LOCAL Sq(x) == RMul(x, x)
Pole(form, p) == IF form = 1 THEN Sq(p) ELSE RNorm(p)
SellmeierSq(form, cs, w) ==
  RAdd(RAdd(1, cs[1]), RSum([i \in 1..((Len(cs) - 1) \div 2) |-> RDiv(RMul(cs[2 * i], Sq(w)), RSub(Sq(w), Pole(form, cs[2 * i + 1])))]))

(* ---- Faddeeva function on the upper half plane, about 40 digits near 0 and better than 14 everywhere *)
D == 75
Cut(z) == CRound(z, D)
SqrtPi == RSqrt(RRound(RPi, 60))
(* power series: terms t(n) = (iz)^n / Gamma(n/2 + 1), t(n+2) = -z^2 t(n) / (n/2 + 1) *)
RECURSIVE Series(_, _, _, _)
Series(mz2, t, acc, n) == \* t = <<t(n), t(n+1)>>
  IF n > 30 /\ RLt(CAbs2(t[1]), "1e-60") /\ RLt(CAbs2(t[2]), "1e-60") THEN acc
  ELSE Series(mz2, TLCEval(<<Cut(CScale(RDiv(2, n + 2), CMul(mz2, t[1]))), Cut(CScale(RDiv(2, n + 3), CMul(mz2, t[2])))>>),
              TLCEval(Cut(CAdd(acc, CAdd(t[1], t[2])))), n + 2)
FadSeries(z) == Series(TLCEval(Cut(CNeg(CMul(z, z)))), TLCEval(<<COne, Cut(CScale(RDiv(2, SqrtPi), CMul(CI, z)))>>), CZero, 0)
(* continued fraction *)
RECURSIVE Down(_, _, _)
Down(z, d, n) == IF n = 0 THEN d ELSE Down(z, TLCEval(CRound(CSub(z, CDiv(C(RDiv(n, 2), 0), d)), 50)), n - 1)
FadFraction(z) == CDiv(C(0, RDiv(1, SqrtPi)), Down(z, z, 17))
Faddeeva(z) == IF RLt(CAbs2(z), 72) THEN FadSeries(z) ELSE FadFraction(z)

(* ---- Brendel-Bormann *)
EvPerCm == "8065.54429"
R2(x) == RRound(x, 50)
Root2 == RSqrt(2)
Bump(a, sigma, centre, amp) == (* i sqrt(pi) amp / (2^1.5 a sigma) * (w((a - c)/(sqrt2 sigma)) + w((a + c)/(sqrt2 sigma))) *)
  LET s == RMul(Root2, sigma)
      za == TLCEval(CRound(CScale(RDiv(1, s), CSub(a, C(centre, 0))), 40))
      zb == TLCEval(CRound(CScale(RDiv(1, s), CAdd(a, C(centre, 0))), 40))
      f == CDiv(C(0, RDiv(RMul(SqrtPi, amp), RMul(2, s))), a)
  IN CRound(CMul(f, CAdd(Faddeeva(za), Faddeeva(zb))), 30)
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN CZero ELSE CAdd(Head(s), SumC(Tail(s)))
Omega(w) == R2(RDiv("0.01", w))
Broad(om, g) == CRound(CSqrt(C(R2(Sq(om)), R2(RMul(om, g)))), 45)
BBEv(cs, w) ==
  LET om == TLCEval(R2(RDiv(Omega(w), EvPerCm)))
      wp2 == Sq(cs[1])
      drude == CRound(CDiv(C(RMul(cs[2], wp2), 0), CMul(C(om, 0), C(om, cs[3]))), 40)
      n == (Len(cs) - 3) \div 4
  IN CAdd(CSub(COne, drude),
          SumC([i \in 1..n |-> LET o == 4 * i - 1 IN Bump(TLCEval(Broad(om, cs[o + 2])), cs[o + 4], cs[o + 3], RMul(cs[o + 1], wp2))]))
BBCm(cs, w) ==
  LET om == TLCEval(Omega(w))
      n == (Len(cs) - 1) \div 4
  IN CAdd(C(cs[1], 0), SumC([i \in 1..n |-> LET o == 4 * i - 3 IN Bump(TLCEval(Broad(om, cs[o + 2])), cs[o + 3], cs[o + 4], cs[o + 1])]))

(* ---- graphene.  Conditions <<Fermi level eV, mobility cm2/Vs, temperature K, thickness m>>; CODATA constants *)
E0 == "1.602176634e-19"
KB == "1.380649e-23"
HB == "1.054571817e-34"
C0 == "299792458"
EPS0 == "8.8541878128e-12"
VF == "1e6"
S(x) == RRound(x, 30)
Photon(w) == S(RDiv(RMul(RMul(HB, RMul(2, RPi)), C0), RMul(w, E0)))
Kt(g) == S(RDiv(RMul(g[3], KB), E0))
Rate(g) == S(RDiv(RMul(HB, Sq(VF)), RMul(RMul(RMul(g[2], "1e-4"), E0), g[1])))
(* x = z/kT, f = EF/kT:  tanh(x) / (cosh(f)/cosh(x) + 1) = sinh(x) / (cosh(f) + cosh(x)), with every exponential divided by the larger of e^x and e^f *)
Occ(z, ef, kt) ==
  LET x == RDiv(z, kt) f == RDiv(ef, kt)
      m == IF RLt(x, f) THEN f ELSE x
      Ex(u) == RRound(RExp(RRound(RSub(u, m), 25)), 35)
      up == RSub(Ex(x), Ex(RNeg(x)))
  IN S(RDiv(up, RAdd(RAdd(Ex(f), Ex(RNeg(f))), RAdd(Ex(x), Ex(RNeg(x))))))
(* ln(1 + x), 0 <= x <= 0.4, and atanh(y), |y| <= 0.6 *)
RECURSIVE Atanh(_, _, _, _)
Atanh(y2, t, acc, k) == IF k > 60 THEN acc ELSE Atanh(y2, RRound(RMul(t, y2), 40), RAdd(acc, RDiv(t, 2 * k + 1)), k + 1)
ATanh(y) == S(Atanh(RRound(Sq(y), 40), RRound(y, 40), "0", 0))
Ln1(x) == S(RMul(2, ATanh(RDiv(x, RAdd(2, x)))))
(* ln(2 cosh(u)) = u + ln(1 + e^(-2u)) *)
LnCosh2(u) == RAdd(u, Ln1(RRound(RExp(RRound(RMul(-2, u), 30)), 35)))
(* integral of (G(z) - G(E/2)) / (E^2 - 4 z^2) over z > 0: Simpson up to Z, where G = 1, then exactly *)
Inter(E, ef, kt, steps) ==
  LET h == TLCEval(Occ(RDiv(E, 2), ef, kt))
      Z == TLCEval(S(RAdd(RAdd(RMul(ef, "1.0173"), RMul("1.03", E)), RMul(30, kt))))
      dz == TLCEval(S(RDiv(Z, steps)))
      F(i) == LET z == S(RMul(i, dz)) IN S(RDiv(RSub(Occ(z, ef, kt), h), RSub(Sq(E), RMul(4, Sq(z)))))
      coarse == RSum([i \in 1..(steps + 1) |-> RMul(F(i - 1), IF i = 1 \/ i = steps + 1 THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2)])
      tail == RDiv(RMul(RSub(h, 1), ATanh(RDiv(E, RMul(2, Z)))), RMul(2, E))
  IN RAdd(RDiv(RMul(coarse, dz), 3), tail)
Sheet(g, w, steps) ==
  LET E == TLCEval(Photon(w)) kt == TLCEval(Kt(g)) ef == g[1]
      intra == CDiv(C(0, RMul(RDiv(RMul(8, kt), RPi), LnCosh2(RDiv(ef, RMul(2, kt))))), C(E, Rate(g)))
  IN CAdd(intra, C(Occ(RDiv(E, 2), ef, kt), RDiv(RMul(RMul(4, E), Inter(E, ef, kt, steps)), RPi)))
(* permittivity - 1 = i sigma / (omega thickness eps0), sigma in units of e^2/4hbar *)
Layer(g, w, sigma) ==
  LET om == RDiv(RMul(E0, Photon(w)), HB)
      u == RDiv(RDiv(Sq(E0), RMul(4, HB)), RMul(RMul(om, g[4]), EPS0))
  IN CAdd(COne, CMul(C(0, S(u)), sigma))
=============================================================================
