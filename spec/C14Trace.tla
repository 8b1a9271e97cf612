------------------------------ MODULE C14Trace -------------------------------
(* C14: settings.
     new/set  i: number of the action, now: the settings the object shows
     bad      i, raised: did it raise, now
     odd      like bad, but may also be taken at its meaning
     badnew   raised: did the constructor raise
     solve    i, now, got: the efficiencies, ref: those of a new object written plainly *)
EXTENDS TraceKit, BigRat
Want(i) == scn.acts[i].set
Alt(i) == scn.acts[i].alt
Near(x, y) == RClose(x, y, "1e-9")
Held(f, x, w) == CASE f \in {"fto", "period", "thick"} -> RSeqClose(x, w, "1e-9")
                   [] f = "kind" -> TRUE
                   [] f = "phi" -> IF w = "none" \/ x = "none" THEN x = w ELSE Near(x, w)
                   [] OTHER -> Near(x, w)
Showing(e, w) == {<<"Normal." \o f, Held(f, e.now[f], w[f])>> : f \in {"fto", "period", "thick", "theta", "phi", "pol", "wl"}}
            \cup {<<"Normal.angle", Near(e.now.psi, RMul(90, RSub(1, w.pol)))>>}
Shown(e) == Showing(e, Want(e.i))
Same(x, y) == x.shape = y.shape /\ RSeqClose(x.v, y.v, "1e-9")
Judge(e) ==
  CASE e.ev \in {"new", "set"} -> Verdict(Shown(e), "action " \o ToString(e.i) \o " " \o ToString(scn.acts[e.i]))
    [] e.ev = "bad" -> Verdict({<<"Refused." \o scn.acts[e.i].field, e.raised>>} \cup {<<"Unharmed." \o c[1], c[2]>> : c \in Shown(e)}, ToString(scn.acts[e.i]))
    [] e.ev = "odd" -> Verdict({<<"Either." \o c[1], c[2]>> : c \in Showing(e, IF e.raised THEN Want(e.i) ELSE Alt(e.i))}, ToString(scn.acts[e.i]))
    [] e.ev = "badnew" -> Verdict({<<"RefusedNew." \o e.what, e.raised>>}, e.what)
    [] e.ev = "solve" -> Verdict({<<"SameResult", Same(e.got, e.ref)>>, <<"SameAcross", Has(e, "num") => RSeqClose(e.got.v, e.num.v, "1e-7")>>} \cup Shown(e), "action " \o ToString(e.i) \o " " \o ToString(Want(e.i)))
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Recorded", Len(obs) = Len(s.acts)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
