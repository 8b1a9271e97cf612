------------------------------ MODULE C13Trace ------------------------------
(* C13: derivatives and steps.
     grad   parts: per setting the components [g: reported derivative, part: re or
            im, st: losses at the stencil], and the setting before and after
     fit    parts: per setting the reference path (path[s] is the setting before
            step s), its stencils, and what the object holds and has returned
     solve  got: the loss the object reports, ref: that of a new object        *)
EXTENDS TraceKit, BigRat
D == INSTANCE Descent
H == "0.0001"
RECURSIVE Biggest(_, _)
Biggest(s, i) == IF i = 0 THEN "0" ELSE LET m == Biggest(s, i - 1) a == RAbs(s[i]) IN IF RLeq(a, m) THEN m ELSE a
Big(s) == Biggest(s, Len(s))
Slopes(cs) == TLCEval([i \in DOMAIN cs |-> RRound(D!Slope(cs[i].st, H), 30)])
(* JAX reports the conjugate of the direction of steepest ascent *)
Want(c, x) == IF c.part = "im" /\ scn.cfg.b = 1 THEN RNeg(x) ELSE x
GradOk(p) == LET s == Slopes(p.comps) scale == RAdd("0.01", Big(s))
             IN \A i \in DOMAIN p.comps : \/ ~D!Resolved(p.comps[i].st, H, RMul("0.01", scale))
                                          \/ RClose(p.comps[i].g, Want(p.comps[i], s[i]), RMul("1e-3", scale))
Held(p) == p.before = p.after
Worst(p) == LET s == Slopes(p.comps) scale == RAdd("0.01", Big(s)) bad == {i \in DOMAIN s : ~RClose(p.comps[i].g, Want(p.comps[i], s[i]), RMul("1e-3", scale))}
            IN IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : TRUE IN p.poi \o " component " \o ToString(i) \o " reported " \o RRound(p.comps[i].g, 9) \o " quotient " \o RRound(s[i], 9)
(* the reference path obeys the step rule (checks the harness, not meent) *)
RECURSIVE Vel(_, _, _, _)
Vel(p, m, s, i) == IF s = 0 THEN "0" ELSE RRound(D!Velocity(m, Vel(p, m, s - 1, i), D!Slope(p.sts[s][i], H)), 30)
PathOk(p, a) == \A s \in DOMAIN p.sts : \A i \in DOMAIN p.path[s] : RClose(p.path[s + 1][i], D!Moved(a.rate, p.path[s][i], Vel(p, a.m, s, i)), "1e-9")
Sharp(p) == \A s \in DOMAIN p.sts : LET sl == TLCEval([i \in DOMAIN p.sts[s] |-> D!Slope(p.sts[s][i], H)]) scale == RAdd("0.01", Big(sl))
                                    IN \A i \in DOMAIN p.sts[s] : D!Resolved(p.sts[s][i], H, RMul("0.01", scale))
Reached(p, x) == LET z == p.path[Len(p.path)] way == Big([i \in DOMAIN z |-> RSub(z[i], p.path[1][i])])
                 IN RSeqClose(x, z, RAdd("1e-9", RMul("2e-3", way)))
Judge(e) ==
  CASE e.ev = "grad" -> Verdict({<<"Derivative." \o e.parts[i].poi, GradOk(e.parts[i])>> : i \in DOMAIN e.parts} \cup {<<"Kept." \o e.parts[i].poi, Held(e.parts[i])>> : i \in DOMAIN e.parts},
                                Worst(e.parts[1]) \o (IF Len(e.parts) > 1 THEN Worst(e.parts[2]) ELSE ""))
    [] e.ev = "fit" -> LET a == scn.acts[e.i] sharp == \A i \in DOMAIN e.parts : Sharp(e.parts[i])
                       IN Verdict({<<"Reference", PathOk(e.parts[i], a)>> : i \in DOMAIN e.parts} \cup
                                  {<<"Steps." \o e.parts[i].poi, Len(e.parts[i].sts) = a.k /\ (sharp => Reached(e.parts[i], e.parts[i].got))>> : i \in DOMAIN e.parts} \cup
                                  {<<"Returned." \o e.parts[i].poi, e.parts[i].got = e.parts[i].ret>> : i \in DOMAIN e.parts}, "fit of " \o ToString(a.pois))
    [] e.ev = "solve" -> Verdict({<<"SolveAfter", RClose(e.got, e.ref, RMul("1e-8", RAdd(1, RAbs(e.ref))))>>}, RRound(e.got, 12) \o " new object " \o RRound(e.ref, 12))
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Recorded", Count("grad") + Count("fit") + Count("solve") = Cardinality({i \in DOMAIN s.acts : s.acts[i].act # "set"}) + 1>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
