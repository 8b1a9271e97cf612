--------------------------------- MODULE Nk ---------------------------------
(* Tabulated materials.  A table is a sequence of rows [w, n, k] with increasing
   integer w (wave length in units of 10^ex metres), n and k in 1/10000.  A wave
   length is an integer in units of 10^(ex-3) metres, times 10^far.  *)
EXTENDS Integers, Sequences, BigRat, TLC
Fix(v) == RDiv(v, 10000)
Metre(v, ex) == ToString(v) \o "e" \o ToString(ex)
RowW(t, i) == Metre(t.rows[i].w, t.ex)
QueryW(t, q, far) == Metre(q, t.ex - 3 + far)
Lo(t) == RowW(t, 1)
Hi(t) == RowW(t, Len(t.rows))
Outside(t, w) == RLt(w, Lo(t)) \/ RLt(Hi(t), w)
Col(r, c) == IF c = "n" THEN Fix(r.n) ELSE Fix(r.k)
(* the definition: the row value on a row, the straight line between neighbours, the end row outside *)
Line2(w, wa, a, wb, b) == RAdd(a, RMul(RSub(b, a), RDiv(RSub(w, wa), RSub(wb, wa))))
Value(t, w, c) ==
  LET m == Len(t.rows)
  IN IF RLeq(w, Lo(t)) THEN Col(t.rows[1], c)
     ELSE IF RLeq(Hi(t), w) THEN Col(t.rows[m], c)
     ELSE LET i == CHOOSE i \in 1..(m - 1) : RLeq(RowW(t, i), w) /\ RLt(w, RowW(t, i + 1))
          IN Line2(w, RowW(t, i), Col(t.rows[i], c), RowW(t, i + 1), Col(t.rows[i + 1], c))
(* how much a relative change eps of wave lengths can move a value: the steepest segment *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Steep(_, _, _)
Steep(t, c, i) == IF i >= Len(t.rows) THEN "0"
                  ELSE LET s == RDiv(RMul(RAbs(RSub(Col(t.rows[i + 1], c), Col(t.rows[i], c))), t.rows[Len(t.rows)].w), t.rows[i + 1].w - t.rows[i].w)
                           r == Steep(t, c, i + 1)
                       IN IF RLt(r, s) THEN s ELSE r
Tol(t, c, single) == IF single THEN RAdd("2e-6", RMul("4e-7", Steep(t, c, 1))) ELSE "1e-9"
(* a wave length within rounding of an end of the range *)
Brink(t, w) == \E e \in {Lo(t), Hi(t)} : RClose(RDiv(w, e), 1, "1e-6")
=============================================================================
