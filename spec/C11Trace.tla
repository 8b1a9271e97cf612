------------------------------ MODULE C11Trace ------------------------------
(* C11: lookups.
     list    what the listing says about the library
     look    i-th question: shape and values returned, whether a warning came
     refused i-th question was refused as unknown *)
EXTENDS TraceKit, Nk
Near(t, w) == IF Brink(t, w) THEN 1 ELSE 0
ShapeOf(a) == CASE a.form = "scalar" -> <<>> [] a.form = "grid" -> <<2, 2>> [] OTHER -> <<4>>
Look(a, e) ==
  LET t == scn.lib[a.t]
      W(s) == QueryW(t, a.ws[s], a.far)
      out == \E s \in DOMAIN a.ws : Outside(t, W(s))
      edge == a.single /\ \E s \in DOMAIN a.ws : Brink(t, W(s))
  IN IF Len(e.re) # Len(a.ws) \/ Len(e.im) # Len(a.ws) THEN Verdict({<<"Shape", FALSE>>}, t.name \o " gave " \o ToString(e.re))
     ELSE Verdict({<<"Shape", e.shape = ShapeOf(a)>>,
              <<"n", \A s \in DOMAIN a.ws : RClose(e.re[s], Value(t, W(s), "n"), Tol(t, "n", a.single))>>,
              <<"k", \A s \in DOMAIN a.ws : RClose(e.im[s], IF a.real THEN 0 ELSE RNeg(Value(t, W(s), "k")), Tol(t, "k", a.single))>>,
              <<"Real", a.real => ~e.complex>>,
              <<"Warned", edge \/ (e.warned = out)>>},
             t.name \o " at " \o ToString([s \in DOMAIN a.ws |-> W(s)]) \o " n " \o ToString(e.re) \o " k " \o ToString(e.im) \o " want " \o
             ToString([s \in DOMAIN a.ws |-> <<RRound(Value(t, W(s), "n"), 9), RRound(Value(t, W(s), "k"), 9)>>]))
List(e) ==
  LET Entry(t) == {i \in DOMAIN e.entries : e.entries[i].key = t.name}
  IN Verdict({<<"List.All", \A j \in DOMAIN scn.lib : Cardinality(Entry(scn.lib[j])) = 1>>,
              <<"List.Only", Len(e.entries) = Len(scn.lib)>>,
              <<"List.Range", \A j \in DOMAIN scn.lib : \A i \in Entry(scn.lib[j]) :
                   RClose(RDiv(e.entries[i].lo, Lo(scn.lib[j])), 1, "1e-12") /\ RClose(RDiv(e.entries[i].hi, Hi(scn.lib[j])), 1, "1e-12")>>,
              <<"List.Source", \A j \in DOMAIN scn.lib : \A i \in Entry(scn.lib[j]) :
                   scn.lib[j].form = "txt" => e.entries[i].src = scn.lib[j].src /\ e.entries[i].cond = scn.lib[j].cond>>}, "listing")
(* a shipped table: the rows around the wave length (the file read line by line by the recorder), the range and the answer *)
Ship(a, e) ==
  LET w == e.w
      inside == RLeq(e.lo, w) /\ RLeq(w, e.hi)
      f(x, y) == IF REq(e.wa, e.wb) THEN x ELSE Line2(w, e.wa, x, e.wb, y)
  IN Verdict({<<"Ship.Bracket", (inside => RLeq(e.wa, w) /\ RLeq(w, e.wb)) /\ (~inside => REq(e.wa, e.wb) /\ REq(e.wa, IF RLt(w, e.lo) THEN e.lo ELSE e.hi))>>,
              <<"Ship.n", RClose(e.re, f(e.na, e.nb), "1e-9")>>,
              <<"Ship.k", RClose(e.im, IF a.real THEN 0 ELSE RNeg(f(e.ka, e.kb)), "1e-9")>>,
              <<"Ship.Warned", e.warned = ~inside>>,
              <<"Ship.List", REq(e.llo, e.lo) /\ REq(e.lhi, e.hi)>>}, e.name \o " at " \o w)
Judge(e) ==
  CASE e.ev = "list" -> List(e)
    [] e.ev = "look" -> IF scn.asks[e.i].unknown THEN Verdict({<<"Unknown", FALSE>>}, "an unknown name got an index") ELSE Look(scn.asks[e.i], e)
    [] e.ev = "refused" -> Verdict({<<"Refused", scn.asks[e.i].unknown>>}, "a known name was refused")
    [] e.ev = "ship" -> Ship(scn.shipped[e.i], e)
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == IF Has(s, "shipped") THEN Failing({<<"Answered", Count("ship") = Len(s.shipped)>>}) ELSE Failing({<<"Answered", Count("look") + Count("refused") = Len(s.asks) /\ Count("list") = 1>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
