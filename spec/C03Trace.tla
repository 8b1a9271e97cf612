------------------------------ MODULE C03Trace ------------------------------
(* C03: the backends are three implementations of one function.  Every event
   carries the efficiencies of one backend; the first (numpy) is the
   reference, `mirror' is the reference solved with the opposite sign of the
   polarisation angle.  The one disagreement on record, a torch solve that
   answers for the mirrored angle, has a clause of its own. *)
EXTENDS DeviceTrace
Tol == Loose("1e-7")
Ref == FirstEv("solve")
SplitSame(a, b) == (a.split /\ b.split) => SameSplit(scn.cfg, a.te, b.te, Tol) /\ SameSplit(scn.cfg, a.tm, b.tm, Tol)
Mirrored(e) == Seen("mirror") /\ SameSplit(scn.cfg, LastEv("mirror").res, e.res, Tol)
Judge(e) ==
  CASE e.ev = "mirror" -> Fine
    [] e.ev = "solve" /\ ~Seen("solve") -> Verdict({<<"Generator.Reference", e.b = 0>>}, "")
    [] e.ev = "solve" /\ Seen("solve") ->
         LET same == SameSplit(scn.cfg, Ref.res, e.res, Tol)
         IN Verdict({<<"TorchPsiSign", same \/ ~Mirrored(e) \/ e.b # 2>>,
                     <<"BackendsAgree", same \/ (Mirrored(e) /\ e.b = 2)>>,
                     <<"BackendsAgree.split", SplitSame(Ref, e)>>,
                     <<"TopLevel", e.top.R = e.res.R /\ e.top.T = e.res.T>>,
                     <<"Layout", Ref.res.shape = e.res.shape /\ Ref.res.tshape = e.res.tshape>>},
                    "backend " \o ToString(e.b) \o " R+T = " \o RRound(Total(e.res), 9) \o " reference " \o RRound(Total(Ref.res), 9))
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Solved", Count("solve") = IF s.cfg.b = 1 THEN 3 ELSE 2>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
