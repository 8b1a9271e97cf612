------------------------------ MODULE C07Trace ------------------------------
(* C07: descriptions of one pattern.
     solve  i = 0: the pixel map; i > 0: description i, refined or drawn
     dfs    i, c and f: the discrete series on a coarse sampling and on one
            four times finer in each direction                            *)
EXTENDS DeviceTrace, Repr
Tol == Loose("1e-7")
Base == FirstEv("solve")
Right(i) == LET a == scn.alts[i]
            IN CASE a.how = "refine" -> \A j \in DOMAIN a.cfg.cell : LET s == a.cfg.shape o == scn.cfg.shape
                                          IN a.cfg.cell[j] = Refine(scn.cfg.cell[j], s.rows \div o.rows, s.cols \div o.cols)
                 [] a.how = "vector" -> \A j \in DOMAIN a.layers : LET m == scn.cfg.cell[j] IN Painted(Len(m), Len(m[1]), a.layers[j].base, a.layers[j].boxes) = m
                 [] OTHER -> TRUE
Dist(a, b) == LET F(s, u) == {RAbs(RSub(s[k], u[k])) : k \in DOMAIN s} IN F(a.Rs, b.Rs) \cup F(a.Rp, b.Rp) \cup F(a.Ts, b.Ts) \cup F(a.Tp, b.Tp)
Largest(S) == CHOOSE x \in S : \A y \in S : RLeq(y, x)
Len4(a, b) == Len(a.Rs) = Len(b.Rs) /\ Len(a.Rp) = Len(b.Rp) /\ Len(a.Ts) = Len(b.Ts) /\ Len(a.Tp) = Len(b.Tp)
Fin(a) == \A x \in {a.Rs, a.Rp, a.Ts, a.Tp} : \A k \in DOMAIN x : RIsNum(x[k])
(* the error of the discrete series falls by at least four when the sampling step falls by four (its order is two) *)
Converges(b, c, f) == /\ Len4(b, c) /\ Len4(b, f) /\ Fin(c) /\ Fin(f)
                      /\ RLeq(Largest(Dist(b, f)), RAdd(RMul("1/4", Largest(Dist(b, c))), "2e-5"))
                      /\ RLeq(Largest(Dist(b, f)), "5e-2")
Judge(e) ==
  CASE e.ev = "solve" /\ e.i = 0 -> Fine
    [] e.ev = "solve" -> Verdict({<<"Generator", Right(e.i)>>,
                                  <<"Same." \o scn.alts[e.i].how, SameAll(Base.res, e.res, Tol)>>,
                                  <<"Same.split." \o scn.alts[e.i].how, (Base.split /\ e.split) => SameAll(Base.te, e.te, Tol) /\ SameAll(Base.tm, e.tm, Tol)>>},
                                 "R+T " \o RRound(Total(e.res), 9) \o " pixel map " \o RRound(Total(Base.res), 9))
    [] e.ev = "dfs" -> Verdict({<<"Converges", Converges(Base.res, e.c.res, e.f.res)>>,
                                <<"Converges.split", (Base.split /\ e.c.split /\ e.f.split) => Converges(Base.te, e.c.te, e.f.te) /\ Converges(Base.tm, e.c.tm, e.f.tm)>>},
                               "error " \o RRound(Largest(Dist(Base.res, e.c.res)), 9) \o " then " \o RRound(Largest(Dist(Base.res, e.f.res)), 9))
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Solved", Count("solve") + Count("dfs") = 1 + Len(s.alts)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
