------------------------------ MODULE C04Trace ------------------------------
(* C04: every presentation of a one-dimensional grating gives the efficiencies
   of the first one at the orders they share, and nothing in the orders it
   added. *)
EXTENDS DeviceTrace
Tol == Loose("1e-7")
Base == FirstEv("solve")
Zero(x) == RClose(x, 0, "1e-9")
Agree(c, d, a, b) == \A o \in Orders(d) : IF o[1] = 0 /\ o \in Orders(c) THEN RClose(a[Pos(c, o)], b[Pos(d, o)], Tol) ELSE Zero(b[Pos(d, o)])
Fits(d, r) == Len(r.R) = Width(d) * Height(d) /\ Len(r.T) = Len(r.R)
Same(c, d, a, b) == Fits(d, b) /\ Agree(c, d, a.R, b.R) /\ Agree(c, d, a.T, b.T) /\ Agree(c, d, a.Rs, b.Rs) /\ Agree(c, d, a.Rp, b.Rp)
                    /\ Agree(c, d, a.Ts, b.Ts) /\ Agree(c, d, a.Tp, b.Tp)
Judge(e) ==
  CASE e.ev # "solve" -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
    [] ~Seen("solve") -> Verdict({<<"Generator.Base", e.i = 0>>}, "")
    [] OTHER -> LET d == scn.alts[e.i]
                IN Verdict({<<"FormulationsAgree", Same(scn.cfg, d, Base.res, e.res)>>,
                            <<"FormulationsAgree.split", (Base.split /\ e.split) => Same(scn.cfg, d, Base.te, e.te) /\ Same(scn.cfg, d, Base.tm, e.tm)>>},
                           "presentation " \o ToString(e.i) \o " R+T = " \o RRound(Total(e.res), 9) \o " base " \o RRound(Total(Base.res), 9))
Missing(s) == Failing({<<"Solved", Count("solve") = 1 + Len(s.alts)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
