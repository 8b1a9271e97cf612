------------------------------ MODULE C12Trace ------------------------------
(* C12: fills.
     fill   i-th fill: shape and values of the result, precision, whether the id map is still the one passed in
     kept   at the end: results returned earlier are what they were *)
EXTENDS TraceKit, Fill
FillOk(f, e) ==
      LET idx == TLCEval([m \in DOMAIN f.mats |-> Index(f.mats[m], scn.lib, Metre(f.w, -12), e.looked)])
          want == TLCEval(Filled(f.ids, idx))
          tol == IF f.single THEN "2e-6" ELSE "1e-11"
      IN Verdict({<<"Shape", e.shape = f.shape>>,
                  <<"Filled", Len(e.v) = Len(want) /\ \A i \in DOMAIN want : CClose(e.v[i], want[i], RMul(tol, RAdd(1, RAdd(RAbs(want[i][1]), RAbs(want[i][2])))))>>,
                  <<"Precision", e.single = f.single>>,
                  <<"MapKept", e.kept>>}, "ids " \o ToString(f.ids) \o " gave " \o ToString(e.v))
Judge(e) ==
  CASE e.ev = "fill" -> FillOk(scn.fills[e.i], e)
    [] e.ev = "kept" -> Verdict({<<"EarlierKept", e.all>>}, "earlier results changed")
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Answered", Count("fill") = Len(s.fills) /\ Count("kept") = 1>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
