------------------------------ MODULE C19Trace ------------------------------
(* C19: the complex amplitudes of a solve, read back into normal form, are
   those of the same device on another backend, in another formulation, moved
   by the phase of the move, and, for homogeneous layers, the exact ones. *)
EXTENDS DeviceTrace
A == INSTANCE Amplitude
S == INSTANCE Slab
Tol == Loose("1e-7")
Big(z) == RAdd(1, RAdd(RAbs(z[1]), RAbs(z[2])))
Nigh(u, v) == CClose(u, v, RMul(Tol, Big(v)))
Cfg(i) == IF i = 0 THEN scn.cfg ELSE scn.alts[i]
Ev(i) == obs[CHOOSE k \in DOMAIN obs : obs[k].ev = "solve" /\ obs[k].i = i]
Still(c, o) == RClose(Kx(c, o[2]), 0, "1e-9")
Sgn(x) == IF RLt(x, 0) THEN -1 ELSE 1
(* axes of orders with kx = 0 may face either side *)
Facing(c, o) == IF o = <<0, 0>> THEN 1 ELSE Sgn(Kx(c, o[2])) * Sgn(Kx(c, 0))
Clear(c, d) == {o \in Orders(c) \cap Orders(d) : o = <<0, 0>> \/ (~Still(c, o) /\ ~Still(c, <<0, 0>>))}
Split(e) == Has(e.amp, "te")
PartsOf(c, e) == IF Split(e) THEN {"te", "tm"} ELSE {IF c.pol.v = 0 THEN "te" ELSE "tm"}
Rec(e, part) == IF Split(e) THEN e.amp[part] ELSE e.amp.res
Nb(c) == S!Idx(c.nbot)
Nt(c) == S!Idx(c.ntop * 1000)
Z(c, e, part, f, o) == A!Plain(c.b, Split(e), part, f, Facing(c, o), Nt(c), Nb(c), Rec(e, part)[f][Pos(c, o)])
Fs == {"Rs", "Rp", "Ts", "Tp"}
Fits(c, e) == \A p \in PartsOf(c, e) : \A f \in Fs : Len(Rec(e, p)[f]) = Width(c) * Height(c)
Shared(c, d, a, b) == PartsOf(c, a) \cap PartsOf(d, b)
(* in p of a planar TE solve (and s of a TM one) there is nothing *)
SameAmp(c, d, a, b, p) == \A f \in Fs : \A o \in Clear(c, d) : Nigh(Z(d, b, p, f, o), Z(c, a, p, f, o))
Extra(c, d, b, p) == \A f \in Fs : \A o \in Orders(d) : (o[1] # 0) => Nigh(Z(d, b, p, f, o), CZero)
Step(k) == IF scn.ops[k].op = "shiftx" THEN <<scn.ops[k].k, 0>> ELSE <<0, scn.ops[k].k>>
MovedAmp(c, a, b, p, k) == \A f \in Fs : \A o \in Orders(c) :
    Nigh(Rec(b, p)[f][Pos(c, o)],
         LET w == A!Moved(o, Step(k)[1], c.shape.cols, Step(k)[2], c.shape.rows, IF c.b = 2 THEN CConj(Rec(a, p)[f][Pos(c, o)]) ELSE Rec(a, p)[f][Pos(c, o)])
         IN CRound(IF c.b = 2 THEN CConj(w) ELSE w, 30))
Film(c, e, p) ==
  LET x == S!Amp(p, c.ntop * 1000, [k \in DOMAIN c.cell |-> c.cell[k][1][1]], [k \in DOMAIN c.thick |-> RDiv(c.thick[k], 10000)], c.nbot, Kt2(c, 0, 0))
      o == <<0, 0>>
      r == IF p = "te" THEN x.r ELSE CNeg(CMul(CMul(CI, Nt(c)), x.r))
      t == IF p = "te" THEN x.t ELSE CMul(CMul(CI, Nt(c)), CMul(x.t, CDiv(x.ys, x.y0)))
      fr == IF p = "te" THEN "Rs" ELSE "Rp"
      ft == IF p = "te" THEN "Ts" ELSE "Tp"
  IN {<<"Film.R." \o p, Nigh(Z(c, e, p, fr, o), r)>>, <<"Film.T." \o p, Nigh(Z(c, e, p, ft, o), t)>>,
      <<"Film.Cross." \o p, \A f \in Fs \ {fr, ft} : Nigh(Z(c, e, p, f, o), CZero)>>}
(* the configured wave is the mixture of the two, in the backend's own writing *)
Mixed(c, e) ==
  Split(e) => LET s == RRound(RSin(PolPsi(c.pol)), 30)
                  k == RRound(RCos(PolPsi(c.pol)), 30)
              IN \A f \in Fs : \A i \in DOMAIN e.amp.res[f] : Nigh(e.amp.res[f][i], CAdd(CScale(s, e.amp.te[f][i]), CScale(k, e.amp.tm[f][i])))
Both(v, c, e) == [v EXCEPT !.bad = @ \cup Failing({<<"Configured", Mixed(c, e)>>})]
Judge(e) ==
  IF e.ev # "solve" THEN Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
  ELSE LET d == Cfg(e.i)
       IN IF ~Fits(d, e) THEN Verdict({<<"OnePerOrder", FALSE>>}, "")
          ELSE IF e.i = 0 THEN IF scn.work = "film" THEN Both(Verdict(UNION {Film(d, e, p) : p \in PartsOf(d, e)}, "film"), d, e) ELSE Both(Fine, d, e)
          ELSE LET c == Cfg(e.i - 1)
                   a == Ev(e.i - 1)
                   ps == Shared(c, d, a, e)
               IN Both(CASE scn.work = "cross" -> Verdict({<<"Backends." \o p, SameAmp(c, d, a, e, p)>> : p \in ps}, "backends " \o ToString(c.b) \o " and " \o ToString(d.b))
                    [] scn.work = "shift" -> Verdict({<<"Moved." \o p, MovedAmp(c, a, e, p, e.i)>> : p \in ps}, "move " \o ToString(scn.ops[e.i]))
                    [] OTHER -> Verdict({<<"Formulations." \o p, SameAmp(c, d, a, e, p)>> : p \in ps} \cup {<<"Extra." \o p, Extra(c, d, e, p)>> : p \in ps}, "presentation " \o ToString(e.i)), d, e)
Missing(s) == Failing({<<"Solved", Count("solve") = 1 + Len(s.alts)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
