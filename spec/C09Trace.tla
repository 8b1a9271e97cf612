------------------------------ MODULE C09Trace ------------------------------
(* C09: homogeneous stacks against the exact walk of Slab; patterned stacks
   against themselves after a rewriting of the layer list. *)
EXTENDS DeviceTrace
S == INSTANCE Slab
Tol == Loose("1e-7")
Zero(x) == RClose(x, 0, "1e-9")
Base == FirstEv("solve")
Mid(x) == x[(Len(x) + 1) \div 2]
Others(x) == \A i \in DOMAIN x : i = (Len(x) + 1) \div 2 \/ Zero(x[i])
Codes(c) == [k \in DOMAIN c.cell |-> c.cell[k][1][1]]
Ts(c) == [k \in DOMAIN c.thick |-> RDiv(c.thick[k], 10000)]
Exact(c, pol) == S!RT(pol, c.ntop * 1000, Codes(c), Ts(c), c.nbot, Kt2(c, 0, 0))
OnlyZeroth(r) == Others(r.R) /\ Others(r.T)
SPart(r, x) == RClose(Mid(r.Rs), x.R, Tol) /\ RClose(Mid(r.Ts), x.T, Tol) /\ Zero(Mid(r.Rp)) /\ Zero(Mid(r.Tp))
PPart(r, x) == RClose(Mid(r.Rp), x.R, Tol) /\ RClose(Mid(r.Tp), x.T, Tol) /\ Zero(Mid(r.Rs)) /\ Zero(Mid(r.Ts))
(* weights of TE and TM in the incident wave *)
Sq(x) == RMul(x, x)
Film(c, e) ==
  LET te == Exact(c, "te") tm == Exact(c, "tm")
      s2 == RRound(Sq(RSin(PolPsi(c.pol))), 30) c2 == RSub(1, s2)
  IN Verdict({<<"OnlyZeroth", OnlyZeroth(e.res)>>,
              <<"ThinFilm.R", RClose(Mid(e.res.R), RAdd(RMul(s2, te.R), RMul(c2, tm.R)), Tol)>>,
              <<"ThinFilm.T", RClose(Mid(e.res.T), RAdd(RMul(s2, te.T), RMul(c2, tm.T)), Tol)>>,
              <<"ThinFilm.sp", RClose(Mid(e.res.Rs), RMul(s2, te.R), Tol) /\ RClose(Mid(e.res.Rp), RMul(c2, tm.R), Tol)
                               /\ RClose(Mid(e.res.Ts), RMul(s2, te.T), Tol) /\ RClose(Mid(e.res.Tp), RMul(c2, tm.T), Tol)>>,
              <<"ThinFilm.split", e.split => SPart(e.te, te) /\ PPart(e.tm, tm) /\ OnlyZeroth(e.te) /\ OnlyZeroth(e.tm)>>},
             "R " \o RRound(Mid(e.res.R), 9) \o " exact " \o RRound(RAdd(RMul(s2, te.R), RMul(c2, tm.R)), 9)
             \o " T " \o RRound(Mid(e.res.T), 9) \o " exact " \o RRound(RAdd(RMul(s2, te.T), RMul(c2, tm.T)), 9))
Judge(e) ==
  CASE e.ev # "solve" -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
    [] e.i = 0 /\ scn.alts = <<>> -> Film(scn.cfg, e)
    [] e.i = 0 -> Fine
    [] OTHER -> Verdict({<<"LayerList." \o scn.ops[e.i], SameAll(Base.res, e.res, Tol)>>,
                         <<"LayerList.split." \o scn.ops[e.i], (Base.split /\ e.split) => SameAll(Base.te, e.te, Tol) /\ SameAll(Base.tm, e.tm, Tol)>>},
                        "R+T = " \o RRound(Total(e.res), 9) \o " base " \o RRound(Total(Base.res), 9))
Missing(s) == Failing({<<"Solved", Count("solve") = 1 + Len(s.alts)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
