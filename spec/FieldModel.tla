----------------------------- MODULE FieldModel -----------------------------
(* Exhaustive, exact: two waves run up and down through a homogeneous medium.
   Phase steps are rational points of the unit circle, so every plane is an
   exact complex rational.  The laws of FieldLaws hold in each plane, the power
   flow is the same everywhere, and two-wave solutions obey the recurrence. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, Cplx, FieldLaws
CONSTANTS Steps
VARIABLES kx, kz, n2, up, down, rot, planes, pol
vars == <<kx, kz, n2, up, down, rot, planes, pol>>
Amps == {<<"1", "0">>, <<"-1/3", "1/2">>, <<"0", "0">>}
Init == /\ kx \in {"0", "3/5", "-6/5"} /\ kz \in {"4/5", "2"} /\ n2 = RAdd(RMul(kx, kx), RMul(kz, kz))
        /\ up \in Amps /\ down \in Amps /\ rot \in {<<"3/5", "-4/5">>, <<"5/13", "-12/13">>} /\ pol \in {"te", "tm"} /\ planes = <<>>
RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN COne ELSE CMul(z, Pow(z, k - 1))
(* TE: Ey = d + u, Hx = kz (d - u), Hz = kx Ey;  TM: Hy = d + u, Ex = -kz (d - u)/n2, Ez = -kx Hy/n2 *)
At(k) == LET d == CMul(down, Pow(rot, k)) u == CMul(up, Pow(CConj(rot), k)) s == CAdd(d, u) t == CScale(kz, CSub(d, u))
         IN IF pol = "te" THEN <<CZero, s, CZero, t, CZero, CScale(kx, s)>>
            ELSE <<CScale(RDiv(-1, n2), t), CZero, CScale(RDiv(RNeg(kx), n2), s), CZero, s, CZero>>
Next == /\ Len(planes) < Steps /\ planes' = Append(planes, At(Len(planes))) /\ UNCHANGED <<kx, kz, n2, up, down, rot, pol>>
Spec == Init /\ [][Next]_vars
Curl == \A i \in DOMAIN planes : CEq(planes[i][6], Faraday(planes[i], kx, 0)) /\ CEq(CScale(n2, planes[i][3]), Ampere(planes[i], kx, 0))
Level == \A i \in DOMAIN planes : REq(Sz(planes[i]), Sz(planes[1]))
Power == \A i \in DOMAIN planes : REq(Sz(planes[i]), RMul(RMul(kz, RSub(CAbs2(down), CAbs2(up))), IF pol = "te" THEN 1 ELSE RDiv(1, n2)))
Wave == \A i \in 2..(Len(planes) - 1) : \A m \in 1..6 : REq(WaveGap(planes[i - 1][m], planes[i][m], planes[i + 1][m], C(RMul(2, rot[1]), 0)), 0)
=============================================================================
