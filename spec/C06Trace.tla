------------------------------ MODULE C06Trace ------------------------------
(* C06: polarisation settings.
     set    readback of pol and psi after construction (k = 0) and after the
            k-th assignment
     solve  the configured object
     twin   a new object given the other spelling of the model's angle
     te/tm  new objects with pure polarisation                              *)
EXTENDS DeviceTrace
P == INSTANCE PolMachine
Tol == Loose("1e-8")
Angle(k) == P!Run(P!New(scn.ctor.pol, scn.ctor.psi), SubSeq(scn.sets, 1, k))
St == Angle(Len(scn.sets))
ScaleOf(z) == RAdd(1, RAdd(RAbs(z[1]), RAbs(z[2])))
CNear(a, b) == CClose(a, b, RMul(Tol, ScaleOf(b)))
(* amplitudes of any polarisation are the superposition of TE and TM ones *)
Super(x, te, tm) ==
  LET s == RRound(RSin(P!PsiRad(St)), 30) c == RRound(RCos(P!PsiRad(St)), 30)
  IN \A i \in DOMAIN x : CNear(x[i], CAdd(CScale(s, te[i]), CScale(c, tm[i])))
(* efficiency over squared amplitude is a property of the order, not of the wave *)
Weigh(d, a, e, b) == \A i \in DOMAIN d : RClose(RMul(d[i], CAbs2(b[i])), RMul(e[i], CAbs2(a[i])), RMul(Tol, RAdd(1, RAdd(CAbs2(a[i]), CAbs2(b[i])))))
Weighs(e, p, q) == Weigh(e[p].Rs, e.amp[p].Rs, e[q].Rs, e.amp[q].Rs) /\ Weigh(e[p].Rp, e.amp[p].Rp, e[q].Rp, e.amp[q].Rp)
                   /\ Weigh(e[p].Ts, e.amp[p].Ts, e[q].Ts, e.amp[q].Ts) /\ Weigh(e[p].Tp, e.amp[p].Tp, e[q].Tp, e.amp[q].Tp)
Main == FirstEv("solve")
Judge(e) ==
  CASE e.ev = "set" ->
         Verdict({<<"Readback.psi", RClose(e.psi, P!PsiRad(Angle(e.k)), "1e-12")>>,
                  <<"Readback.pol", RClose(e.pol, P!PolOf(Angle(e.k)), "1e-12")>>},
                 "after assignment " \o ToString(e.k) \o " psi " \o RRound(e.psi, 6) \o " pol " \o RRound(e.pol, 6) \o " expected angle " \o Angle(e.k))
    [] e.ev = "solve" ->
         IF e.split
         THEN Verdict({<<"Superposition", Super(e.amp.res.Rs, e.amp.te.Rs, e.amp.tm.Rs) /\ Super(e.amp.res.Rp, e.amp.te.Rp, e.amp.tm.Rp)
                                          /\ Super(e.amp.res.Ts, e.amp.te.Ts, e.amp.tm.Ts) /\ Super(e.amp.res.Tp, e.amp.te.Tp, e.amp.tm.Tp)>>,
                       <<"SquaredAmplitude", Weighs(e, "res", "te") /\ Weighs(e, "res", "tm") /\ Weighs(e, "te", "tm")>>}, "angle " \o St)
         ELSE Verdict({<<"SplitReported", P!PureTE(St) \/ P!PureTM(St)>>,
                       <<"PureKind", IF P!PureTE(St) THEN REq(RSum(e.res.Rp), 0) /\ REq(RSum(e.res.Tp), 0) ELSE REq(RSum(e.res.Rs), 0) /\ REq(RSum(e.res.Ts), 0)>>},
                      "angle " \o St)
    [] e.ev = "twin" -> Verdict({<<"SameAngleSameResult", SameAll(Main.res, e.res, Tol)>>,
                                 <<"SameAngleSameAmplitude", (Main.split = e.split) =>
                                      \A f \in {"Rs", "Rp", "Ts", "Tp"} : \A i \in DOMAIN e.amp.res[f] : CNear(Main.amp.res[f][i], e.amp.res[f][i])>>}, "angle " \o St)
    [] e.ev = "pure" -> (* scn's device with pol = 0 or 1 *)
         LET part == IF e.pol = 0 THEN "te" ELSE "tm"
         IN Verdict({<<"PartIsPure." \o part, Main.split => SameAll(Main[part], e.res, Tol)>>,
                     <<"PureIsPart." \o part, (IF e.pol = 0 THEN P!PureTE(St) ELSE P!PureTM(St)) => SameAll(Main.res, e.res, Tol)>>}, part)
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Recorded", Count("set") = 1 + Len(s.sets) /\ Count("solve") = 1 /\ Count("twin") = 1 /\ Count("pure") = 2>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
