----------------------------- MODULE GenDevice ------------------------------
(* Scenario generator: random behaviours of Device's assembly, printed when
   complete. *)
EXTENDS Device
Done == Built /\ step' = step + 1 /\ UNCHANGED cfg
     /\ (Grazing(cfg) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg])))
Next == Build \/ Done
Spec == BuildInit /\ [][Next]_<<cfg, step>>
=============================================================================
