------------------------------ MODULE SlabModel ------------------------------
(* Exhaustive check of the reference itself over small stacks: energy balance,
   splitting, zero thickness, reversal and total reflection. *)
EXTENDS Integers, Sequences, TLC, BigRat, Cplx
S == INSTANCE Slab
VARIABLES pol, top, bot, codes, ts, kt2
Codes == {150000, 200001, 30250}
vars == <<pol, top, bot, codes, ts, kt2>>
Init == pol \in {"te", "tm"} /\ top \in {100000, 152000} /\ bot \in {100000, 200000, 150020} /\ codes = <<>> /\ ts = <<>>
        /\ kt2 \in {"0", "49/400", "121/400", "1369/1000"} /\ RLt(kt2, RMul(RDiv(top \div 1000, 100), RDiv(top \div 1000, 100)))
Next == /\ Len(codes) < 2 /\ \E n \in Codes : \E t \in {"0", "2/7"} : codes' = Append(codes, n) /\ ts' = Append(ts, t)
        /\ UNCHANGED <<pol, top, bot, kt2>>
Spec == Init /\ [][Next]_vars
Cur == S!RT(pol, top, codes, ts, bot, kt2)
Clear(n) == n % 1000 = 0
Tol == "1e-25"
Energy == LET x == Cur IN IF \A i \in DOMAIN codes : Clear(codes[i]) THEN RClose(RAdd(x.R, x.T), 1, Tol) ELSE RLeq(RAdd(x.R, x.T), "1.0000000001")
Physical == LET x == Cur IN RLeq("-1e-25", x.R) /\ RLeq("-1e-25", x.T)
Split == Len(codes) = 1 =>
  LET x == Cur y == S!RT(pol, top, <<codes[1], codes[1]>>, <<RDiv(ts[1], 3), RMul("2/3", ts[1])>>, bot, kt2)
  IN RClose(x.R, y.R, Tol) /\ RClose(x.T, y.T, Tol)
Nothing == \A i \in DOMAIN codes : ts[i] = "0" =>
  LET x == Cur y == S!RT(pol, top, SubSeq(codes, 1, i - 1) \o SubSeq(codes, i + 1, Len(codes)), SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts)), bot, kt2)
  IN RClose(x.R, y.R, Tol) /\ RClose(x.T, y.T, Tol)
Reverse == (Clear(bot) /\ RLt(kt2, RMul(RDiv(bot \div 1000, 100), RDiv(bot \div 1000, 100)))) =>
  LET x == Cur y == S!RT(pol, bot, [i \in DOMAIN codes |-> codes[Len(codes) + 1 - i]], [i \in DOMAIN ts |-> ts[Len(ts) + 1 - i]], top, kt2)
  IN RClose(x.T, y.T, Tol)
(* bare interface at normal incidence: Fresnel *)
Fresnel == (codes = <<>> /\ kt2 = "0" /\ Clear(bot)) =>
  LET a == RDiv(top \div 1000, 100) b == RDiv(bot \div 1000, 100) r == RDiv(RSub(a, b), RAdd(a, b)) IN RClose(Cur.R, RMul(r, r), Tol)
=============================================================================
