----------------------------- MODULE GenPresent -----------------------------
(* A device is assembled, then presented again and again: each step applies
   one presentation operator to the previous presentation. *)
EXTENDS Present
CONSTANTS MaxAlts
VARIABLES alts
KMax(c) == IF c.b = 1 THEN 3 ELSE 6
Room(c, k, n) == k * c.shape.rows <= KMax(c) /\ c.shape.fy + n <= (IF c.b = 1 THEN 1 ELSE 2)
Last == IF alts = <<>> THEN cfg ELSE alts[Len(alts)]
Steps(c) == {GiveAzimuth(c)}
            \cup {RepeatRows(c, k) : k \in {k \in {2, 3, 5} : Room(c, k, 0) /\ (c.b = 1 => k = 3)}}
            \cup {AddYOrders(c, n) : n \in {n \in {1, 2} : Room(c, 1, n)}}
            \cup {OtherPeriodY(c, q) : q \in {5, 12, 29, 41}}
PNext == /\ Built /\ Len(alts) < MaxAlts
         /\ \E d \in Steps(Last) : alts' = Append(alts, d)
         /\ UNCHANGED <<cfg, step>>
Done == /\ Built /\ Len(alts) = MaxAlts /\ step' = step + 1 /\ UNCHANGED <<cfg, alts>>
        /\ ((Grazing(cfg) \/ Unsplit(cfg) \/ \E i \in DOMAIN alts : Grazing(alts[i]) \/ Unsplit(alts[i]))
            \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, alts |-> alts])))
Next == (Build /\ UNCHANGED alts) \/ PNext \/ Done
Spec == BuildInit /\ alts = <<>> /\ [][Next]_<<cfg, step, alts>>
=============================================================================
