------------------------------ MODULE C05Trace ------------------------------
(* C05: every answer of a session is the answer of a new object with the
   settings the session has reached.
     solve/field  i: number of the action, got: the object's answer, ref: the
                  answer of a new object with that action's settings record,
                  how: the field grid and inputs asked for, inputs: digests of everything the user passed in, before and
                  after the call
     audit        digests of all answers, when given and at the end          *)
EXTENDS TraceKit, BigRat
Tol == "1e-9"
Act(i) == scn.acts[i]
(* the specification's own account of the settings before action i *)
RECURSIVE Settings(_, _)
Settings(o, i) ==
  LET a == Act(i)
  IN IF a.obj = o /\ a.act = "new" THEN a.set
     ELSE LET s == Settings(o, i - 1) IN IF a.obj = o /\ a.act \in {"set", "with"} THEN [s EXCEPT ![a.field] = a.value] ELSE s
PairsClose(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : RClose(a[k], b[k], RMul(Tol, RAdd(1, RAbs(b[k]))))
SameAns(x, y) == x.shape = y.shape /\ PairsClose(x.v, y.v)
(* the previous answer of the same object and kind, if nothing was assigned in between *)
Prior(e) == {j \in DOMAIN obs : /\ obs[j].ev = e.ev /\ obs[j].how = e.how /\ Act(obs[j].i).obj = Act(e.i).obj
                                /\ \A k \in (obs[j].i + 1)..e.i : ~(Act(k).act \in {"set", "with"} /\ Act(k).obj = Act(e.i).obj)}
Judge(e) ==
  CASE e.ev \in {"solve", "field"} ->
         LET a == Act(e.i)
         IN Verdict({<<"Generator.Settings", a.set = Settings(a.obj, e.i)>>,
                     <<"FunctionOfSettings." \o e.ev, SameAns(e.got, e.ref)>>,
                     <<"InputsUntouched", e.before = e.after>>,
                     <<"Repeatable." \o e.ev, \A j \in Prior(e) : obs[j].got = e.got>>},
                    "action " \o ToString(e.i) \o " of object " \o ToString(a.obj))
    [] e.ev = "audit" -> Verdict({<<"EarlierResultsStable", e.then = e.now>>}, "")
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Expect(s) == Cardinality({i \in DOMAIN s.acts : s.acts[i].act \in {"solve", "both", "with"}})
Missing(s) == Failing({<<"Recorded", Count("solve") = Expect(s) /\ Seen("audit")>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
