------------------------------ MODULE C16Trace ------------------------------
(* C16: fitted materials.
     fit     what the file of a shipped fit contains (read by the recorder)
     listed  the range the listing gives for the fit
     look    i-th question: shape, values, warning
     refused the fit, its conditions or the i-th wave length was rejected *)
EXTENDS TraceKit, Dispersion
SKind == scn.fit.kind
Def == IF SKind = "shipped" THEN (IF Seen("fit") THEN FirstEv("fit").fit ELSE scn.fit) ELSE scn.fit
LoW == IF SKind = "shipped" THEN FirstEv("fit").lo ELSE scn.lo
HiW == IF SKind = "shipped" THEN FirstEv("fit").hi ELSE scn.hi
Steps(g) == CASE g[3] = "150" -> 560 [] g[3] = "300" -> 300 [] OTHER -> 220
Eps(f, w) == CASE f.kind = "sellmeier" -> C(SellmeierSq(f.form, f.cs, w), 0)
               [] f.kind = "bbev" -> BBEv(f.cs, w)
               [] f.kind = "bbcm" -> BBCm(f.cs, w)
Size(z) == RAdd(RAbs(z[1]), RAdd(RAbs(z[2]), 1))
(* the answer v = n - ik against the permittivity e of the n + ik convention *)
Fits(f, v, w, real) ==
  \A e \in {Eps(f, w)} :
    IF f.kind = "sellmeier" /\ RLeq(e[1], "1e-9") THEN TRUE   \* a transparent fit far outside its range defines no index
    ELSE IF real THEN RClose(v[1], CSqrt(e)[1], RMul("1e-7", Size(e))) /\ REq(v[2], 0)
    ELSE /\ \A s \in {CMul(v, v)} : CClose(s, CConj(e), RMul("1e-9", Size(e)))
         /\ RLeq(0, v[1]) /\ RLeq(v[2], 0)
(* graphene: conductivity recovered from the answer; the imaginary part may miss the interband tail beyond 1000 eV *)
SheetFits(g, v, w) ==
  \A want \in {Sheet(g, w, Steps(g))} :
    \A one \in {CSub(Layer(g, w, COne), COne)} :
      \A got \in {CDiv(CSub(CConj(CMul(v, v)), COne), one)} :
        \A tol \in {RMul("2e-5", Size(want))} :
           /\ RClose(got[1], want[1], tol)
           /\ RClose(got[2], want[2], RAdd(tol, RMul("3.6e-4", Photon(w))))
           /\ RLeq(0, v[1]) /\ RLeq(v[2], 0)
Val(e, s) == <<e.re[s], e.im[s]>>
Look(a, e) ==
  LET f == Def
      out == \E s \in DOMAIN a.ws : RLt(a.ws[s], LoW) \/ RLt(HiW, a.ws[s])
      whole == Len(e.re) = Len(a.ws) /\ Len(e.im) = Len(a.ws)
  IN IF ~whole THEN Verdict({<<"Shape", FALSE>>}, f.kind \o " gave " \o ToString(e.re))
     ELSE Verdict({<<"Shape", e.shape = (IF a.form = "scalar" THEN <<>> ELSE <<3>>)>>,
              <<"Accepted." \o f.kind, f.kind \notin {"bad", "cond"} /\ a.badw = "">>,
              <<"Value." \o f.kind, (f.kind \in {"sellmeier", "bbev", "bbcm"}) => \A s \in DOMAIN a.ws : Fits(f, Val(e, s), a.ws[s], a.real)>>,
              <<"Value.sheet", (f.kind = "sheet" /\ a.badw = "") => \A s \in DOMAIN a.ws : SheetFits(f.cs, Val(e, s), a.ws[s])>>,
              <<"Warned", e.warned = (f.kind # "sheet" /\ out)>>},
             f.kind \o " at " \o ToString(a.ws) \o " gave " \o ToString([s \in DOMAIN a.ws |-> Val(e, s)]) \o (IF a.real THEN " (real)" ELSE ""))
Judge(e) ==
  CASE e.ev = "fit" -> Fine
    [] e.ev = "listed" -> Verdict({<<"Listed", REq(e.lo, LoW) /\ REq(e.hi, HiW)>>}, "range " \o e.lo \o " " \o e.hi)
    [] e.ev = "look" -> Look(scn.asks[e.i], e)
    [] e.ev = "refused" -> Verdict({<<"Refused", SKind \in {"bad", "cond"} \/ (e.i > 0 /\ scn.asks[e.i].badw # "")>>,
                                    <<"RefusedAsBadValue", SKind \in {"cond"} => e.how \in {"TypeError", "ValueError"}>>}, SKind \o " refused: " \o e.how)
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Answered", Count("look") + Count("refused") = Len(s.asks)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
