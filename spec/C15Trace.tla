------------------------------ MODULE C15Trace ------------------------------
(* C15: a walk of symmetry operations relabels the efficiencies and nothing
   else; the reversed channel carries what the channel carries. *)
EXTENDS DeviceTrace
LOCAL S == INSTANCE Symmetry WITH Backends <- {0, 1, 2}, Kinds <- {"1d", "2d"}, Lossy <- TRUE, Fts <- {0, 1, 2},
                                  Pols <- {}, Thin <- FALSE, Cutoff <- FALSE, cfg <- scn, step <- 0
Tol == Loose("1e-7")
Zero(x) == RClose(x, 0, "1e-9")
Base == FirstEv("solve")
RECURSIVE Carry(_, _)
Carry(o, i) == IF i = 0 THEN o ELSE S!MapOrder(scn.ops[i], Carry(o, i - 1))
Fits(d, r) == Len(r.R) = Width(d) * Height(d) /\ Len(r.T) = Len(r.R)
Moved(i, a, b) ==
  LET c == scn.cfg d == scn.alts[i] img == {Carry(o, i) : o \in Orders(c)}
  IN /\ \A o \in Orders(c) : RClose(a[Pos(c, o)], b[Pos(d, Carry(o, i))], Tol)
     /\ \A p \in Orders(d) \ img : Zero(b[Pos(d, p)])
Same(i, a, b) == Fits(scn.alts[i], b) /\ Moved(i, a.R, b.R) /\ Moved(i, a.T, b.T) /\ Moved(i, a.Rs, b.Rs) /\ Moved(i, a.Rp, b.Rp)
                 /\ Moved(i, a.Ts, b.Ts) /\ Moved(i, a.Tp, b.Tp)
Mid(x) == x[(Len(x) + 1) \div 2]
Near(a, b) == RClose(Mid(a), Mid(b), Tol)
Reciprocal(f, e) ==
  IF f.split /\ e.split THEN Near(f.te.Ts, e.te.Ts) /\ Near(f.te.Tp, e.tm.Ts) /\ Near(f.tm.Ts, e.te.Tp) /\ Near(f.tm.Tp, e.tm.Tp)
  ELSE (~f.split /\ ~e.split) => Near(f.res.T, e.res.T)
Judge(e) ==
  CASE e.ev = "solve" /\ ~Seen("solve") -> Verdict({<<"Generator.Base", e.i = 0>>}, "")
    [] e.ev = "solve" /\ Seen("solve") ->
         Verdict({<<"Symmetric." \o scn.ops[e.i].op, Same(e.i, Base.res, e.res)>>,
                  <<"Symmetric.split." \o scn.ops[e.i].op, (Base.split /\ e.split) => Same(e.i, Base.te, e.te) /\ Same(e.i, Base.tm, e.tm)>>},
                 "step " \o ToString(e.i) \o " R+T = " \o RRound(Total(e.res), 9) \o " base " \o RRound(Total(Base.res), 9))
    [] e.ev = "back" -> LET f == LastEv("solve")
         IN Verdict({<<"Reciprocal", Reciprocal(f, e)>>}, "T0 forth " \o RRound(Mid(f.res.T), 9) \o " back " \o RRound(Mid(e.res.T), 9))
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Solved", Count("solve") = 1 + Len(s.alts) /\ Count("back") = Len(s.back)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
