------------------------------- MODULE GenPol --------------------------------
(* A device and a history of polarisation assignments on one object: the
   constructor's arguments, then setter calls. *)
EXTENDS Device
CONSTANTS MaxSet
VARIABLES ctor, sets
PVals == {0, 30, 75, 100}
AVals == {0, 35, 90, -40, 120}
As == {[by |-> "pol", v |-> v] : v \in PVals} \cup {[by |-> "psi", v |-> v] : v \in AVals}
      \cup {[by |-> "share", v |-> v] : v \in {4, 3050, 9995}} \cup {[by |-> "mpsi", v |-> v] : v \in {-20, 30, 34990, 89985}}
Ctor == /\ Built /\ ctor.todo
        /\ \E p \in {"none", "0", "30", "75", "100"} : \E a \in {"none", "0", "35", "90", "-40", "120"} :
             (p = "none" \/ a = "none" \/ RandomElement(1..3) = 1) /\ ctor' = [todo |-> FALSE, pol |-> p, psi |-> a]
        /\ UNCHANGED <<cfg, step, sets>>
Assign == /\ Built /\ ~ctor.todo /\ Len(sets) < MaxSet
          /\ \E a \in As : sets' = Append(sets, a)
          /\ UNCHANGED <<cfg, step, ctor>>
Done == /\ Built /\ ~ctor.todo /\ step' = step + 1 /\ UNCHANGED <<cfg, ctor, sets>>
        /\ (Grazing(cfg) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, ctor |-> ctor, sets |-> sets])))
Next == (Build /\ UNCHANGED <<ctor, sets>>) \/ Ctor \/ Assign \/ Done
Spec == BuildInit /\ ctor = [todo |-> TRUE] /\ sets = <<>> /\ [][Next]_<<cfg, step, ctor, sets>>
=============================================================================
