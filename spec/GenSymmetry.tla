----------------------------- MODULE GenSymmetry ----------------------------
(* A device is assembled, then carried through a random walk of symmetry
   operations; where possible it is finally run backwards. *)
EXTENDS Symmetry
CONSTANTS MaxOps, Menu
VARIABLES ops, alts
MenuAll == OpsAll
MenuJax == {a \in OpsAll : a.op \in {"shiftx", "shifty", "mirrorx", "mirrory", "scale", "swap"}}
Last == IF alts = <<>> THEN cfg ELSE alts[Len(alts)]
Walk == /\ Built /\ Len(ops) < MaxOps
        /\ \E a \in {a \in Menu : Allowed(a, Last)} :
             /\ ops' = Append(ops, a)
             /\ alts' = Append(alts, Act(a, Last))
        /\ UNCHANGED <<cfg, step>>
Bad(c) == Grazing(c) \/ Unsplit(c)
Done == /\ Built /\ Len(ops) = MaxOps /\ step' = step + 1 /\ UNCHANGED <<cfg, ops, alts>>
        /\ LET back == IF Reversible(Last) /\ ~Bad(Back(Last)) THEN <<Back(Last)>> ELSE <<>>
           IN (Bad(cfg) \/ \E i \in DOMAIN alts : Bad(alts[i])) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, ops |-> ops, alts |-> alts, back |-> back]))
Next == (Build /\ UNCHANGED <<ops, alts>>) \/ Walk \/ Done
Spec == BuildInit /\ ops = <<>> /\ alts = <<>> /\ [][Next]_<<cfg, step, ops, alts>>
=============================================================================
