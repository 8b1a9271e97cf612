------------------------------ MODULE C08Trace ------------------------------
(* C08: drawings.
     solve  i = 0 the drawing, i = 1 the pixel map the specification painted
            (kind paint);  i = 0 the turned rectangle, i > 0 other spellings of
            it (kind turn): its slabs one by one, a half turn more, a quarter
            turn more with exchanged sides
     slabs  the boxes <<y0, x0, y1, x1>> standing for one shape (kind shape), from
            two backends; u: the region they cover, as disjoint boxes          *)
EXTENDS DeviceTrace, Repr
Tol == Loose("1e-7")
Base == FirstEv("solve")
Sq(x) == RMul(x, x)
W(b) == RSub(b[4], b[2])
H(b) == RSub(b[3], b[1])
Area(b) == RMul(W(b), H(b))
MX(b) == RDiv(RAdd(b[4], b[2]), 2)
MY(b) == RDiv(RAdd(b[3], b[1]), 2)
SumOf(bs, F(_)) == RSum([k \in DOMAIN bs |-> F(bs[k])])
Spellings == <<"slabs", "half turn", "quarter turn">>
(* extent of the turned shape along x and y *)
Cos(s) == RRound(RCos(s.angle), 40)
Sin(s) == RRound(RSin(s.angle), 40)
HalfX(s) == IF s.shape = "rectangle" THEN RDiv(RAdd(RAbs(RMul(s.lx, Cos(s))), RAbs(RMul(s.ly, Sin(s)))), 2)
            ELSE RDiv(RSqrt(RAdd(Sq(RMul(s.lx, Cos(s))), Sq(RMul(s.ly, Sin(s))))), 2)
HalfY(s) == IF s.shape = "rectangle" THEN RDiv(RAdd(RAbs(RMul(s.lx, Sin(s))), RAbs(RMul(s.ly, Cos(s)))), 2)
            ELSE RDiv(RSqrt(RAdd(Sq(RMul(s.lx, Sin(s))), Sq(RMul(s.ly, Cos(s))))), 2)
Within(s, b) == /\ RLeq(RSub(RSub(s.cx, HalfX(s)), "1e-6"), b[2]) /\ RLeq(b[4], RAdd(RAdd(s.cx, HalfX(s)), "1e-6"))
                /\ RLeq(RSub(RSub(s.cy, HalfY(s)), "1e-6"), b[1]) /\ RLeq(b[3], RAdd(RAdd(s.cy, HalfY(s)), "1e-6"))
(* the staircase error of an ellipse in n steps: first order in 1/n, growing with the aspect ratio *)
Aspect(s) == IF RLeq(s.lx, s.ly) THEN RDiv(s.ly, s.lx) ELSE RDiv(s.lx, s.ly)
Coarse(s) == RDiv(RMul(2, Aspect(s)), s.nt)
Alike(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : RSeqClose(p[k], q[k], "1e-6")
Slabs(s, e) ==
  LET A == SumOf(e.u, Area)
      Fx(b) == RMul(Area(b), RSub(MX(b), s.cx))
      Fy(b) == RMul(Area(b), RSub(MY(b), s.cy))
      Fxy(b) == RMul(Area(b), RMul(RSub(MX(b), s.cx), RSub(MY(b), s.cy)))
      full == IF s.shape = "rectangle" THEN RMul(s.lx, s.ly) ELSE RMul(RDiv(RPi, 4), RMul(s.lx, s.ly))
      den == IF s.shape = "rectangle" THEN 12 ELSE 16
      cross == RDiv(RMul(RMul(full, RSub(Sq(s.lx), Sq(s.ly))), RMul(Sin(s), Cos(s))), den)
      size == RDiv(RMul(full, RAdd(Sq(s.lx), Sq(s.ly))), den)
  IN Verdict({<<"Shape.Forward", \A k \in DOMAIN e.b : RLeq("-1e-9", W(e.b[k])) /\ RLeq("-1e-9", H(e.b[k]))>>,
              <<"Shape.Area", IF s.shape = "rectangle" THEN RClose(A, full, RMul(full, "1e-6")) ELSE RClose(A, full, RMul(full, Coarse(s)))>>,
              <<"Shape.Centre", RClose(SumOf(e.u, Fx), 0, RMul(full, "1e-6")) /\ RClose(SumOf(e.u, Fy), 0, RMul(full, "1e-6"))>>,
              <<"Shape.Within", \A k \in DOMAIN e.b : Within(s, e.b[k])>>,
              <<"Shape.Reaches", s.shape = "rectangle" => (\E k \in DOMAIN e.u : RClose(e.u[k][1], RSub(s.cy, HalfY(s)), "1e-5")) /\ \E k \in DOMAIN e.u : RClose(e.u[k][3], RAdd(s.cy, HalfY(s)), "1e-5")>>,
              <<"Shape.Colour", e.same>>,
              <<"Shape.Backends", e.i = 0 \/ Alike(FirstEv("slabs").u, e.u)>>,
              <<"Shape.Turned", s.fine => RClose(SumOf(e.u, Fxy), cross, RMul(size, IF s.shape = "rectangle" THEN "0.02" ELSE "0.08"))>>},
             s.shape \o " area " \o RRound(RDiv(A, full), 6) \o " cross " \o RRound(RDiv(RSub(SumOf(e.u, Fxy), cross), size), 6))
Right == \A j \in DOMAIN scn.prog : LET c == scn.cfg.cell[j] IN Painted(Len(c), Len(c[1]), scn.prog[j].base, scn.prog[j].boxes) = c
Judge(e) ==
  CASE e.ev = "solve" /\ e.i = 0 -> Fine
    [] e.ev = "solve" /\ scn.kind = "paint" ->
         Verdict({<<"Generator", Right>>, <<"Painted", SameAll(Base.res, e.res, Tol)>>,
                  <<"Painted.split", (Base.split /\ e.split) => SameAll(Base.te, e.te, Tol) /\ SameAll(Base.tm, e.tm, Tol)>>},
                 "drawing R+T " \o RRound(Total(Base.res), 9) \o " pixel map " \o RRound(Total(e.res), 9))
    [] e.ev = "solve" -> Verdict({<<"Turn." \o Spellings[e.i], SameAll(Base.res, e.res, Tol)>>}, "R+T " \o RRound(Total(Base.res), 9) \o " " \o RRound(Total(e.res), 9))
    [] e.ev = "slabs" -> Slabs(scn.s, e)
    [] OTHER -> Verdict({<<"UnexplainedStep", FALSE>>}, e.ev)
Missing(s) == Failing({<<"Answered", Count("solve") + Count("slabs") = (CASE s.kind = "paint" -> 2 [] s.kind = "turn" -> 4 [] OTHER -> 2)>>})
Spec == TInit /\ [][TNext(Judge, Missing)]_tvars
=============================================================================
