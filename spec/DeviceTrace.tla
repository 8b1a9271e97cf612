----------------------------- MODULE DeviceTrace ----------------------------
(* Device's optics without its assembly machine, for trace specifications. *)
EXTENDS TraceKit, BigRat, Cplx
LOCAL D == INSTANCE Device WITH Backends <- {0, 1, 2}, Kinds <- {"1d", "2d"}, Lossy <- TRUE, Fts <- {0, 1, 2},
                                Pols <- {}, Thin <- FALSE, Cutoff <- FALSE, cfg <- scn, step <- 0
(* Close to a defective eigenproblem rounding is amplified.  When a scenario
   was found violating, the replay is repeated with the wavelength changed in
   its twelfth digit and the largest change of any recorded number is handed
   over as scn.noise: what rounding alone does to this scenario. *)
Loose(t) == IF Has(scn, "noise") THEN LET n == RMul(100, scn.noise) IN IF RLeq(n, t) THEN t ELSE IF RLeq("1e-4", n) THEN "1e-4" ELSE n ELSE t
Orders(c) == D!Orders(c)
PolPsi(p) == RMul(RPi, RDiv(D!PolDeg(p), 180))   \* the polarisation angle
Pos(c, o) == D!Pos(c, o)
PropTop(c, o) == D!PropTop(c, o)
PropBot(c, o) == D!PropBot(c, o)
Width(c) == D!Width(c)
Height(c) == D!Height(c)
Lossless(c) == D!Lossless(c)
Absorbing(c) == D!Absorbing(c)
Kx(c, m) == D!Kx(c, m)
Ky(c, m) == D!Ky(c, m)
Kt2(c, a, b) == D!Kt2(c, a, b)
Total(r) == RAdd(RSum(r.R), RSum(r.T))
TotalSP(r) == RAdd(RAdd(RSum(r.Rs), RSum(r.Rp)), RAdd(RSum(r.Ts), RSum(r.Tp)))
(* the result records of a solve event: the configured wave, and, where the
   formulation reports them, its TE- and TM-incidence parts *)
Parts(e) == {<<"res", e.res>>} \cup (IF e.split THEN {<<"te", e.te>>, <<"tm", e.tm>>} ELSE {})
SameEff(a, b, tol) == RSeqClose(a.R, b.R, tol) /\ RSeqClose(a.T, b.T, tol)
SameEffSP(a, b, tol) == /\ RSeqClose(a.Rs, b.Rs, tol) /\ RSeqClose(a.Rp, b.Rp, tol)
                        /\ RSeqClose(a.Ts, b.Ts, tol) /\ RSeqClose(a.Tp, b.Tp, tol)
(* the same without the orders whose s and p are undefined *)
Splittable(c, s) == LET bad == {Pos(c, o) : o \in {o \in Orders(c) : D!Along(c, o)}} IN [i \in DOMAIN s |-> IF i \in bad THEN "0" ELSE s[i]]
SameSplit(c, a, b, tol) == /\ SameEff(a, b, tol)
                           /\ \A f \in {"Rs", "Rp", "Ts", "Tp"} : RSeqClose(Splittable(c, a[f]), Splittable(c, b[f]), tol)
SameAll(a, b, tol) == SameEff(a, b, tol) /\ SameEffSP(a, b, tol)
=============================================================================
