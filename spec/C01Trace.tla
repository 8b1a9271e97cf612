------------------------------ MODULE C01Trace ------------------------------
(* C01: energy conservation.  Every recorded solve of a lossless device must
   be one the specification allows: the reflected and transmitted efficiencies
   of the incident wave, and of its s- and p-incidence parts, add up to one. *)
EXTENDS DeviceTrace
Tol == Loose("1e-7")
One(r) == RClose(Total(r), 1, Tol) /\ RClose(TotalSP(r), 1, Tol)
Judge(e) ==
  IF e.ev # "solve" THEN Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
  ELSE Verdict({<<"EnergyConserved." \o p[1], One(p[2])>> : p \in Parts(e)}
               \cup {<<"EnergyConserved.top", RClose(Total(e.top), 1, Tol)>>},
               "R+T = " \o RRound(Total(e.res), 9))
Missing(s) == Failing({<<"Generator.Lossless", Lossless(s.cfg)>>, <<"Solved", Seen("solve")>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
