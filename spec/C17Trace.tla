------------------------------ MODULE C17Trace -------------------------------
(* C17: precision.
     solve/field  i: number of the action; types: the number types of all arrays
                  returned; got: the answer; exact: that of a new double
                  precision object; same: that of a new object of the same
                  precision.  Values of a solve are efficiencies             *)
EXTENDS TraceKit, BigRat
Pr == INSTANCE Precision WITH prec <- "double", grain <- [none |-> TRUE]
Act(i) == scn.acts[i]
(* the specification's own account of the state before action i *)
RECURSIVE At(_)
At(i) == IF i = 1 THEN [p |-> Act(1).p, g |-> Pr!NewGrain(Act(1).p)]
         ELSE LET s == At(i - 1) a == Act(i)
              IN CASE a.act = "switch" -> [p |-> a.p, g |-> Pr!Switched(s.g, a.p)]
                   [] a.act = "set" -> [p |-> s.p, g |-> Pr!Assigned(s.g, a.field, s.p)]
                   [] OTHER -> s
Names(p) == IF p = "double" THEN {"float64", "complex128"} ELSE {"float32", "complex64"}
(* where modes nearly coincide single precision amplifies its rounding further;
   scn.noise is what a change of the wavelength in its seventh digit does *)
Coarse == IF Has(scn, "noise") /\ RLt("1e-4", scn.noise) THEN (IF RLt("5e-3", scn.noise) THEN "5e-2" ELSE RMul(10, scn.noise)) ELSE "1e-3"
Fine0 == "1e-9"
Rough == "1e-5"
RECURSIVE Reach(_, _)
Reach(s, i) == IF i = 0 THEN "0" ELSE LET m == Reach(s, i - 1) a == RAbs(s[i]) IN IF RLeq(a, m) THEN m ELSE a
Span(s) == RAdd(1, IF s = <<>> THEN 0 ELSE Reach(s, Len(s)))
Judge(e) ==
  CASE e.ev \in {"solve", "field"} ->
         LET s == At(e.i) faithful == Pr!Faithful(s.g, s.p) single == s.p = "single" unit == Span(e.exact)
         IN Verdict({<<"Generator.State", Act(e.i).prec = s.p /\ Act(e.i).faithful = faithful>>,
                     <<"Types." \o e.ev, \A k \in DOMAIN e.types : e.types[k] \in Names(s.p)>>,
                     <<"Physics." \o e.ev, RSeqClose(e.got, e.exact, RMul(unit, IF faithful /\ ~single THEN Fine0 ELSE Coarse))>>,
                     <<"AsBuilt." \o e.ev, faithful => RSeqClose(e.got, e.same, RMul(unit, IF single THEN Rough ELSE Fine0))>>},
                    "action " \o ToString(e.i) \o " precision " \o s.p \o " types " \o ToString(e.types))
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Recorded", Len(obs) = Cardinality({i \in DOMAIN s.acts : s.acts[i].act \in {"solve", "field"}})>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
