------------------------------ MODULE C10Trace ------------------------------
(* C10: fields.  solve carries the efficiencies, grid the shape of the returned
   array, field the plane wave amplitudes a[plane][order][component] of one
   input wave (res: the configured one, te, tm), again the same field sampled
   more densely by the combined call, few the field on a
   very coarse grid against its plane waves, ref the numpy field of the same input. *)
EXTENDS DeviceTrace, FieldLaws
Tol == Loose("1e-7")
C0 == scn.cfg
G == scn.grid
Planar == C0.kind = "1d" /\ C0.shape.rows = 1 /\ C0.shape.fy = 0
          (* torch documents that an azimuth of zero is treated like none *)
          /\ (C0.phi.none \/ (C0.b = 2 /\ C0.phi.s = 0 /\ C0.phi.c > 0)) /\ C0.pol.by = "pol" /\ C0.pol.v \in {0, 100}
TMPlanar == Planar /\ C0.pol.v = 100
NL == C0.shape.layers
NZ == G.z
CosTop == RSqrt(RSub(1, RMul(RDiv(C0.sin, 20), RDiv(C0.sin, 20))))
(* unit incident wave: |E| = 1, for the planar TM form |H| = 1 *)
Unit == IF TMPlanar THEN RDiv(CosTop, RDiv(C0.ntop, 100)) ELSE RMul(CosTop, RDiv(C0.ntop, 100))
Part(e, n) == CASE n = "res" -> e.res [] n = "te" -> e.te [] OTHER -> e.tm
Plane(k, z) == (k - 1) * NZ + z
PosOrders == {<<Pos(C0, o), o>> : o \in Orders(C0)}
Grid(e) == LET n == Len(e.want) ny == IF Planar THEN 1 ELSE G.y + 1
               comp == IF Planar /\ C0.b # 2 THEN 3 ELSE 6
           IN e.shape = (IF Planar THEN <<NZ * NL, ny, G.x + 1, comp>> ELSE <<n, NZ * NL, ny, G.x + 1, 6>>)
Flow(a, p) == RSum([i \in DOMAIN a[p] |-> Sz(a[p][i])])
Small(x, big) == RLeq(x, RMul(Tol, RAdd(1, big)))
CNear(u, v, big) == Small(RSqrt(CAbs2(CSub(u, v))), big)
Continuous(a, big) == \A k \in 1..(NL - 1) : \A i \in DOMAIN a[1] : \A m \in {1, 2, 4, 5, 6} : CNear(a[Plane(k, NZ)][i][m], a[Plane(k + 1, 1)][i][m], big)
FaradayZ(a, big) == \A p \in DOMAIN a : \A po \in PosOrders : CNear(a[p][po[1]][6], Faraday(a[p][po[1]], Kx(C0, po[2][2]), Ky(C0, po[2][1])), big)
Uniform(k) == \A r \in DOMAIN C0.cell[k] : \A x \in DOMAIN C0.cell[k][r] : C0.cell[k][r][x] = C0.cell[k][1][1]
N2(k) == LET n == S!Idx(C0.cell[k][1][1]) IN CMul(n, n)
AmpereZ(a, big) == \A k \in 1..NL : Uniform(k) =>
   \A z \in 1..NZ : \A po \in PosOrders : LET w == a[Plane(k, z)][po[1]] IN CNear(CMul(N2(k), w[3]), Ampere(w, Kx(C0, po[2][2]), Ky(C0, po[2][1])), big)
(* in a patterned layer eps is the convolution with its exact Fourier coefficients (continuous series).  Fx(n, c, m) is
   the coefficient m of the indicator of pixel c of n: the integral of exp(2 pi i m x) over [(c-1)/n, c/n]; rows run downwards *)
Cis(x) == <<RRound(RCos(x), 30), RRound(RSin(x), 30)>>
Bar(n, c, m) == IF m = 0 THEN C(RDiv(1, n), 0)
                ELSE LET w(x) == Cis(RMul(RMul(2, RPi), RMul(m, RDiv(x, n))))
                     IN CRound(CMul(C(0, RDiv(-1, RMul(RMul(2, RPi), m))), CSub(w(c), w(c - 1))), 30)
CSumSeq(s) == <<RSum([i \in DOMAIN s |-> s[i][1]]), RSum([i \in DOMAIN s |-> s[i][2]])>>
(* values bound through singleton sets are computed once *)
Eps(k) == LET R == C0.shape.rows N == C0.shape.cols fx == 2 * C0.shape.fx fy == 2 * C0.shape.fy
          IN CHOOSE e \in UNION {UNION {UNION {
               {TLCEval([my \in (-fy)..fy |-> [mx \in (-fx)..fx |-> CRound(CSumSeq(TLCEval([r \in 1..R |-> CMul(row[r][mx], by[r][my])])), 25)]])
                 : row \in {TLCEval([r \in 1..R |-> [m \in (-fx)..fx |-> CSumSeq(TLCEval([x \in 1..N |-> CMul(e2[r][x], bx[x][m])]))]])}}
                 : e2 \in {TLCEval([r \in 1..R |-> [x \in 1..N |-> CMul(S!Idx(C0.cell[k][r][x]), S!Idx(C0.cell[k][r][x]))]])}}
                 : by \in {TLCEval([r \in 1..R |-> [m \in (-fy)..fy |-> Bar(R, R + 1 - r, m)]])}}
                 : bx \in {TLCEval([x \in 1..N |-> [m \in (-fx)..fx |-> Bar(N, x, m)]])}} : TRUE
Conv(e, w, po) == CSumSeq(TLCEval([i \in DOMAIN w |->
   CMul(e[po[2][1] - (((i - 1) \div Width(C0)) - C0.shape.fy)][po[2][2] - (((i - 1) % Width(C0)) - C0.shape.fx)], w[i][3])]))
AmpereConv(a, big) == C0.ft = 1 => \A k \in 1..NL : ~Uniform(k) =>
   \A e \in {Eps(k)} : \A z \in {1, NZ} : \A w \in {a[Plane(k, z)]} : \A po \in PosOrders :
        CNear(Conv(e, w, po), Ampere(w[po[1]], Kx(C0, po[2][2]), Ky(C0, po[2][1])), RMul(10, big))
Waves(a, big) == \A k \in 1..NL : (Uniform(k) /\ NZ > 2) =>
   \A po \in PosOrders :
     LET tc == TwoCos(C0.cell[k][1][1], Kt2(C0, po[2][1], po[2][2]), RDiv(C0.thick[k], 10000 * (NZ - 1)))
     IN \A z \in 2..(NZ - 1) : \A m \in 1..6 :
          LET u == a[Plane(k, z - 1)][po[1]][m] v == a[Plane(k, z)][po[1]][m] w == a[Plane(k, z + 1)][po[1]][m]
          IN RLeq(WaveGap(u, v, w, tc), RMul("1e-14", RMul(RMul(big, big), RAdd(1, CAbs2(tc)))))
Field(e) ==
  LET r == Part(FirstEv("solve"), e.inp)
      big == RAdd(1, e.big)
      top(i) == RDiv(Sz(e.a[1][i]), Unit)
      bot(i) == RDiv(Sz(e.a[NZ * NL][i]), Unit)
      zero == Pos(C0, <<0, 0>>)
      flow(p) == RDiv(Flow(e.a, p), Unit)
      ok == Len(e.a) = NZ * NL /\ \A p \in DOMAIN e.a : Len(e.a[p]) = Width(C0) * Height(C0)
  IN Verdict({<<"Planes", ok>>} \cup (IF ~ok THEN {} ELSE
             {<<"Bloch", Small(e.resid, big)>>,
              <<"Continuous." \o e.inp, Continuous(e.a, big)>>,
              <<"Faraday." \o e.inp, FaradayZ(e.a, big)>>,
              <<"Ampere." \o e.inp, AmpereZ(e.a, big)>>,
              <<"AmpereConv." \o e.inp, AmpereConv(e.a, big)>>,
              <<"Waves." \o e.inp, Waves(e.a, big)>>,
              <<"Reflected." \o e.inp, \A i \in DOMAIN r.R : RClose(top(i), RSub(IF i = zero THEN 1 ELSE 0, r.R[i]), Tol)>>,
              <<"Transmitted." \o e.inp, \A i \in DOMAIN r.T : RClose(bot(i), r.T[i], Tol)>>,
              <<"Downhill." \o e.inp, \A p \in 1..(Len(e.a) - 1) : RLeq(flow(p + 1), RAdd(flow(p), Tol))>>,
              <<"Level." \o e.inp, Lossless(C0) => \A p \in DOMAIN e.a : RClose(flow(p), RSum(r.T), Tol)>>}),
             e.inp \o " resid " \o RRound(e.resid, 12) \o " top flow " \o RRound(flow(1), 9) \o " bottom " \o RRound(flow(NZ * NL), 9) \o " T " \o RRound(RSum(r.T), 9))
FieldOf(n) == obs[CHOOSE i \in DOMAIN obs : obs[i].ev = "field" /\ obs[i].inp = n]
HasField(n) == \E i \in DOMAIN obs : obs[i].ev = "field" /\ obs[i].inp = n
(* sin and cos of the polarisation angle *)
Psi == PolPsi(C0.pol)
Sum(sg) == LET s == RRound(RSin(Psi), 40) c == RMul(sg, RRound(RCos(Psi), 40)) r == FieldOf("res").a te == FieldOf("te").a tm == FieldOf("tm").a
           IN \A p \in DOMAIN r : \A i \in DOMAIN r[p] : \A m \in 1..6 : CNear(r[p][i][m], CAdd(CScale(s, te[p][i][m]), CScale(c, tm[p][i][m])), FieldOf("res").big)
Same(a, b, sg, big) == \A p \in DOMAIN a : \A i \in DOMAIN a[p] : \A m \in 1..6 : CNear(a[p][i][m], CScale(sg, b[p][i][m]), big)
(* backends choose the sign of a unit wave freely; the mixed input of torch is known to use the other polarisation sign (C03) *)
RefOk(e) == LET f == FieldOf(e.inp) IN (e.inp = "res" /\ C0.pol.v \notin {0, 100} /\ C0.b = 2) \/ Same(f.a, e.a, 1, f.big) \/ Same(f.a, e.a, -1, f.big)
Judge(e) ==
  CASE e.ev = "solve" -> Fine
    [] e.ev = "grid" -> Verdict({<<"Grid", Grid(e)>>}, ToString(e.shape))
    [] e.ev = "field" -> Field(e)
    [] e.ev = "again" -> Verdict({<<"Resampled", Small(e.gap, e.big)>>, <<"Combined", SameAll(FirstEv("solve").res, e.res, "1e-12")>>,
                                  <<"Superposed", (HasField("res") /\ HasField("te") /\ HasField("tm")) => (Sum(1) \/ (C0.b = 2 /\ Sum(-1)))>>}, "gap " \o RRound(e.gap, 12))
    [] e.ev = "few" -> Verdict({<<"Sparse", Small(e.gap, RMul(10, e.big))>>}, ToString(e.shape) \o " gap " \o RRound(e.gap, 12))
    [] e.ev = "ref" -> Verdict({<<"Backends", RefOk(e)>>}, e.inp)
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Answered", Seen("solve") /\ Seen("grid") /\ Seen("field") /\ Seen("again") /\ Seen("few")>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
