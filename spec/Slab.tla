-------------------------------- MODULE Slab --------------------------------
(* Exact optics of homogeneous films: the characteristic-admittance walk from
   the substrate up to the incidence medium, in 50-digit complex arithmetic.
   Indices follow n - ik with exp(+i omega t), so a forward wave has
   Im kz <= 0.  Nothing here is taken from meent. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
LOCAL INSTANCE Cplx
Digits == 50
Rd(z) == CRound(z, Digits)
Fraction(k) == CASE k = 903 -> "1e-3" [] k = 904 -> "1e-4" [] k = 905 -> "1e-5" [] OTHER -> "0"   \* see Device: finely different indices
Idx(code) == LET k == code % 1000 n == RDiv(code \div 1000, 100)
             IN IF k > 900 THEN C(RAdd(n, Fraction(k)), 0) ELSE C(n, RNeg(RDiv(k, 100)))
(* forward root *)
Forward(z) == IF RLt(0, z[2]) THEN CNeg(z) ELSE z
Kz(code, kt2) == Forward(Rd(CSqrt(CSub(CMul(Idx(code), Idx(code)), C(kt2, 0)))))
(* oblique admittance *)
Adm(pol, code, kt2) == IF pol = "te" THEN Kz(code, kt2) ELSE Rd(CDiv(CMul(Idx(code), Idx(code)), Kz(code, kt2)))
CosSin(d) == (* of a complex angle, from exp(+-i d) *)
  LET p == Rd(CExp(CMul(CI, d))) q == Rd(CExp(CNeg(CMul(CI, d))))
  IN [c |-> CScale("1/2", CAdd(p, q)), s |-> CMul(C(0, "-1/2"), CSub(p, q))]
(* one step of the walk: a layer of thickness t wavelengths over <<B, C>>;
   rescaled because only the ratio and the common factor matter *)
Step(pol, code, t, kt2, w) ==
  LET y == Adm(pol, code, kt2)
      cs == CosSin(CScale(RMul(RMul(2, RPi), t), Kz(code, kt2)))
  IN [b |-> Rd(CAdd(CMul(cs.c, w.b), CMul(CI, CDiv(CMul(cs.s, w.c), y)))),
      c |-> Rd(CAdd(CMul(CI, CMul(y, CMul(cs.s, w.b))), CMul(cs.c, w.c)))]
RECURSIVE Walk(_, _, _, _, _)
(* codes, ts: layers from the incidence side *)
Walk(pol, codes, ts, kt2, w) ==
  IF codes = <<>> THEN w
  ELSE Walk(pol, SubSeq(codes, 1, Len(codes) - 1), SubSeq(ts, 1, Len(ts) - 1), kt2, Step(pol, codes[Len(codes)], ts[Len(ts)], kt2, w))
(* reflectance and transmittance; top medium lossless *)
RT(pol, topcode, codes, ts, botcode, kt2) ==
  LET y0 == Adm(pol, topcode, kt2)
      ys == Adm(pol, botcode, kt2)
      w == Walk(pol, codes, ts, kt2, [b |-> COne, c |-> ys])
      den == CAbs2(CAdd(CMul(y0, w.b), w.c))
  IN [R |-> RRound(RDiv(CAbs2(CSub(CMul(y0, w.b), w.c)), den), 30),
      T |-> RRound(RDiv(RMul(RMul(4, y0[1]), ys[1]), den), 30)]
(* complex amplitudes of the tangential electric field *)
Amp(pol, topcode, codes, ts, botcode, kt2) ==
  LET y0 == Adm(pol, topcode, kt2)
      ys == Adm(pol, botcode, kt2)
      w == Walk(pol, codes, ts, kt2, [b |-> COne, c |-> ys])
      den == CAdd(CMul(y0, w.b), w.c)
  IN [r |-> Rd(CDiv(CSub(CMul(y0, w.b), w.c), den)), t |-> Rd(CDiv(CScale(2, y0), den)), y0 |-> y0, ys |-> ys]
=============================================================================
