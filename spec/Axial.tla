-------------------------------- MODULE Axial --------------------------------
(* Exact optics of films whose permittivity is diagonal along x, y, z, for light
   whose plane of incidence contains one of the in-plane axes (or for an optic axis
   along z): s light sees the index across the plane, p light the index along it
   and the one along z.  A layer is <<along, across, normal>> index codes. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
LOCAL INSTANCE Cplx
LOCAL Sl == INSTANCE Slab
Sq(code) == CMul(Sl!Idx(code), Sl!Idx(code))
Kz(pol, lay, kt2) == IF pol = "te" THEN Sl!Kz(lay[2], kt2)
                     ELSE Sl!Forward(Sl!Rd(CSqrt(Sl!Rd(CMul(Sq(lay[1]), CSub(COne, CDiv(C(kt2, 0), Sq(lay[3]))))))))
Adm(pol, lay, kt2) == IF pol = "te" THEN Kz(pol, lay, kt2) ELSE Sl!Rd(CDiv(Sq(lay[1]), Kz(pol, lay, kt2)))
Step(pol, lay, t, kt2, w) ==
  LET y == Adm(pol, lay, kt2)
      cs == Sl!CosSin(CScale(RMul(RMul(2, RPi), t), Kz(pol, lay, kt2)))
  IN [b |-> Sl!Rd(CAdd(CMul(cs.c, w.b), CMul(CI, CDiv(CMul(cs.s, w.c), y)))),
      c |-> Sl!Rd(CAdd(CMul(CI, CMul(y, CMul(cs.s, w.b))), CMul(cs.c, w.c)))]
RECURSIVE Walk(_, _, _, _, _)
Walk(pol, lays, ts, kt2, w) ==
  IF lays = <<>> THEN w
  ELSE Walk(pol, SubSeq(lays, 1, Len(lays) - 1), SubSeq(ts, 1, Len(ts) - 1), kt2, Step(pol, lays[Len(lays)], ts[Len(ts)], kt2, w))
RT(pol, topcode, lays, ts, botcode, kt2) ==
  LET y0 == Sl!Adm(pol, topcode, kt2)
      ys == Sl!Adm(pol, botcode, kt2)
      w == Walk(pol, lays, ts, kt2, [b |-> COne, c |-> ys])
      den == CAbs2(CAdd(CMul(y0, w.b), w.c))
  IN [R |-> RRound(RDiv(CAbs2(CSub(CMul(y0, w.b), w.c)), den), 30), T |-> RRound(RDiv(RMul(RMul(4, y0[1]), ys[1]), den), 30)]
=============================================================================
