------------------------------ MODULE C18Trace ------------------------------
(* C18: anisotropic layers; solve i is the i-th run of the scenario. *)
EXTENDS DeviceTrace
LOCAL S == INSTANCE Symmetry WITH Backends <- {0, 1, 2}, Kinds <- {"1d", "2d"}, Lossy <- TRUE, Fts <- {0, 1, 2}, Pols <- {}, Thin <- FALSE, Cutoff <- FALSE, cfg <- scn, step <- 0
A == INSTANCE Axial
Tol == Loose("1e-7")
Zero(x) == RClose(x, 0, "1e-9")
Base == FirstEv("solve")
B == scn.runs[1]
RECURSIVE Carry(_, _, _)
Carry(ops, o, i) == IF i = 0 THEN o ELSE S!MapOrder(ops[i], Carry(ops, o, i - 1))
Moved(r, a, b) == Len(a) = Len(b) /\ \A o \in Orders(B.cfg) : RClose(a[Pos(B.cfg, o)], b[Pos(r.cfg, Carry(r.ops, o, Len(r.ops)))], Tol)
SameMoved(r, a, b) == \A f \in {"R", "T", "Rs", "Rp", "Ts", "Tp"} : Moved(r, a[f], b[f])
Clear(r) == \A m \in {r.cfg.cell, r.y, r.z} : Lossless([r.cfg EXCEPT !.cell = m])
Energy(r, e) == Clear(r) => \A p \in Parts(e) : RClose(Total(p[2]), 1, Tol)
Passive(e) == \A p \in Parts(e) : RLeq(Total(p[2]), "1.0000001") /\ \A f \in {"R", "T", "Rs", "Rp", "Ts", "Tp"} : \A i \in DOMAIN p[2][f] : RLeq("-1e-9", p[2][f][i])
Mid(x) == x[(Len(x) + 1) \div 2]
Others(x) == \A i \in DOMAIN x : i = (Len(x) + 1) \div 2 \/ Zero(x[i])
Codes(r) == [k \in DOMAIN r.cfg.cell |-> LET x == r.cfg.cell[k][1][1] y == r.y[k][1][1] z == r.z[k][1][1]
                                         IN IF ~r.cfg.phi.none /\ r.cfg.phi.c = 0 THEN <<y, x, z>> ELSE <<x, y, z>>]
Ts(c) == [k \in DOMAIN c.thick |-> RDiv(c.thick[k], 10000)]
Exact(r, pol) == A!RT(pol, r.cfg.ntop * 1000, Codes(r), Ts(r.cfg), r.cfg.nbot, Kt2(r.cfg, 0, 0))
Sq(x) == RMul(x, x)
Film(r, e) ==
  LET te == TLCEval(Exact(r, "te")) tm == TLCEval(Exact(r, "tm"))
      s2 == RRound(Sq(RSin(PolPsi(r.cfg.pol))), 30) c2 == RSub(1, s2)
  IN Verdict({<<"Film.Zeroth", Others(e.res.R) /\ Others(e.res.T)>>,
              <<"Film.s", RClose(Mid(e.res.Rs), RMul(s2, te.R), Tol) /\ RClose(Mid(e.res.Ts), RMul(s2, te.T), Tol)>>,
              <<"Film.p", RClose(Mid(e.res.Rp), RMul(c2, tm.R), Tol) /\ RClose(Mid(e.res.Tp), RMul(c2, tm.T), Tol)>>,
              <<"Energy", Energy(r, e)>>, <<"Passive", Passive(e)>>},
             "R " \o RRound(Mid(e.res.R), 9) \o " exact " \o RRound(RAdd(RMul(s2, te.R), RMul(c2, tm.R)), 9) \o " T " \o RRound(Mid(e.res.T), 9) \o " exact " \o RRound(RAdd(RMul(s2, te.T), RMul(c2, tm.T)), 9))
Both(e) == Base.split /\ e.split
Judge(e) ==
  IF e.ev # "solve" THEN Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
  ELSE LET r == scn.runs[e.i] law == scn.laws[e.i] IN
    CASE law = "film" -> Film(r, e)
      [] law = "base" -> Verdict({<<"Energy", Energy(r, e)>>, <<"Passive", Passive(e)>>}, "R+T = " \o RRound(Total(e.res), 9))
      [] law = "moved" -> Verdict({<<"Moved." \o r.ops[Len(r.ops)].op, SameMoved(r, Base.res, e.res) /\ (Both(e) => SameMoved(r, Base.te, e.te) /\ SameMoved(r, Base.tm, e.tm))>>},
                                  "R+T = " \o RRound(Total(e.res), 9) \o " base " \o RRound(Total(Base.res), 9))
      [] OTHER -> Verdict({<<"Same." \o law, SameAll(Base.res, e.res, Tol) /\ (Both(e) => SameAll(Base.te, e.te, Tol) /\ SameAll(Base.tm, e.tm, Tol))>>},
                          "R+T = " \o RRound(Total(e.res), 9) \o " base " \o RRound(Total(Base.res), 9))
Missing(s) == Failing({<<"Answered", Count("solve") = Len(s.runs)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
