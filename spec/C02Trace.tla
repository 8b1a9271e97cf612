------------------------------ MODULE C02Trace ------------------------------
(* C02: efficiencies are physical and sit at the diffraction order they belong
   to.  The grating equation is evaluated exactly (rational wave numbers), so
   which orders may carry power is decided without tolerance. *)
EXTENDS DeviceTrace
Eps == Loose("1e-9")
NonNeg(s) == \A i \in DOMAIN s : RLeq("-1e-9", s[i])
Finite(s) == \A i \in DOMAIN s : RIsNum(s[i])
Zero(x) == RClose(x, 0, Eps)
PairSum(a, b) == [i \in DOMAIN a |-> RAdd(a[i], b[i])]
Layout(c, r) == r.shape = <<Height(c), Width(c)>> /\ r.tshape = <<Height(c), Width(c)>> /\ Len(r.R) = Height(c) * Width(c)
Clauses(c, n, r) ==
  LET arr == {r.R, r.T, r.Rs, r.Rp, r.Ts, r.Tp}
      ok == Layout(c, r)
  IN {<<"Layout." \o n, ok>>,
      <<"Finite." \o n, \A s \in arr : Finite(s)>>,
      <<"NonNegative." \o n, \A s \in arr : NonNeg(s)>>,
      <<"AtMostOne." \o n, RLeq(Total(r), RAdd(1, Loose("1e-8")))>>,
      <<"SumOfParts." \o n, RSeqClose(PairSum(r.Rs, r.Rp), r.R, Eps) /\ RSeqClose(PairSum(r.Ts, r.Tp), r.T, Eps)>>,
      <<"EvanescentReflected." \o n, ok => \A o \in Orders(c) : PropTop(c, o) \/ Zero(r.R[Pos(c, o)])>>,
      <<"EvanescentTransmitted." \o n, ok => \A o \in Orders(c) : PropBot(c, o) \/ Zero(r.T[Pos(c, o)])>>}
Judge(e) ==
  IF e.ev # "solve" THEN Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
  ELSE Verdict(UNION {Clauses(scn.cfg, p[1], p[2]) : p \in Parts(e)}
               \cup {<<"TopLevel", e.top.R = e.res.R /\ e.top.T = e.res.T>>},
               "R+T = " \o RRound(Total(e.res), 9))
Missing(s) == Failing({<<"Solved", Seen("solve")>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
