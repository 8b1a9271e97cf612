------------------------------ MODULE AxialModel ------------------------------
(* Exhaustive over small stacks: the anisotropic walk reduces to Slab's when the
   three indices agree, conserves energy for real indices, s light ignores the
   along and normal index and p light the across index. *)
EXTENDS Integers, Sequences, BigRat
CONSTANTS Ns, Kts, MaxL
VARIABLES lays, kt2
vars == <<lays, kt2>>
A == INSTANCE Axial
Sl == INSTANCE Slab
Init == lays = <<>> /\ kt2 \in Kts
Next == Len(lays) < MaxL /\ \E a, b, c \in Ns : lays' = Append(lays, <<a, b, c>>) /\ UNCHANGED kt2
Spec == Init /\ [][Next]_vars
Ts == [i \in DOMAIN lays |-> IF i = 1 THEN "0.23" ELSE "0.4"]
R(p, ls) == A!RT(p, 130000, ls, Ts, 150000, kt2)
Same(a, b) == RClose(a.R, b.R, "1e-20") /\ RClose(a.T, b.T, "1e-20")
Energy == \A p \in {"te", "tm"} : LET x == R(p, lays) IN RClose(RAdd(x.R, x.T), 1, "1e-20")
Reduces == (\A i \in DOMAIN lays : lays[i][1] = lays[i][2] /\ lays[i][2] = lays[i][3]) =>
              \A p \in {"te", "tm"} : Same(R(p, lays), Sl!RT(p, 130000, [i \in DOMAIN lays |-> lays[i][1]], Ts, 150000, kt2))
Blind == /\ Same(R("te", lays), R("te", [i \in DOMAIN lays |-> <<200000, lays[i][2], 100000>>]))
         /\ Same(R("tm", lays), R("tm", [i \in DOMAIN lays |-> <<lays[i][1], 200000, lays[i][3]>>]))
=============================================================================
