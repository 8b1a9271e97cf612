--------------------------- MODULE PrecisionModel ----------------------------
(* Exhaustive: every history of switches and assignments.  orig says which
   settings still hold exactly what the user wrote. *)
EXTENDS Precision
VARIABLE orig
Init == \E p \in {"double", "single"} : prec = p /\ grain = NewGrain(p) /\ orig = [f \in Held |-> p = "double"]
Next == \/ \E p \in {"double", "single"} : Switch(p) /\ orig' = [f \in Held |-> orig[f] /\ p = "double"]
        \/ \E f \in Held : Assign(f) /\ orig' = [orig EXCEPT ![f] = prec = "double"]
Spec == Init /\ [][Next]_<<prec, grain, orig>>
SingleIsFaithful == prec = "single" => Faithful(grain, prec)
FaithfulDouble == prec = "double" => (Faithful(grain, prec) <=> \A f \in Held : orig[f])
NeverFinerThanObject == \A f \in Held : Coarser(grain[f], prec) = grain[f]
=============================================================================
