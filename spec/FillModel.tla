------------------------------ MODULE FillModel -------------------------------
(* Exhaustive: filling a map material by material, in the order of the list,
   into a separate result, gives every position the index of its own number -
   for every map and list, also when an index happens to equal a number still to
   be replaced.  (Filling in place would not: InPlace is the machine that
   overwrites the map, and FALSE is its expected verdict on some map; the model
   shows it exists so that the separate result is known to matter.) *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, V
VARIABLES ids, vals, res, place, k
vars == <<ids, vals, res, place, k>>
Init == /\ ids \in [1..N -> 0..(M - 1)] /\ vals \in [1..M -> V] /\ res = [i \in 1..N |-> -1] /\ place = ids /\ k = 0
Next == /\ k < M /\ k' = k + 1 /\ UNCHANGED <<ids, vals>>
        /\ res' = [i \in 1..N |-> IF ids[i] = k THEN vals[k + 1] ELSE res[i]]
        /\ place' = [i \in 1..N |-> IF place[i] = k THEN vals[k + 1] ELSE place[i]]
Spec == Init /\ [][Next]_vars
Right == k = M => res = [i \in 1..N |-> vals[ids[i] + 1]]
Partial == \A i \in 1..N : res[i] = (IF ids[i] < k THEN vals[ids[i] + 1] ELSE -1)
(* in place is right exactly as long as no value is a number still to come *)
InPlace == (k = M /\ \A j \in 1..M : vals[j] \notin j..(M - 1)) => place = res
=============================================================================
