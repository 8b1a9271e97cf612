------------------------------ MODULE Precision ------------------------------
(* The precision of a solver object and of the settings it holds.  A setting is
   rounded to the object's precision when it is assigned and again whenever the
   precision changes; what has been rounded away does not come back until it is
   assigned anew. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES prec,         \* "double" or "single"
          grain         \* setting -> the coarsest precision it has passed through
Held == {"theta", "phi", "pol", "period", "thickness", "ucell"}
Coarser(p, q) == IF "single" \in {p, q} THEN "single" ELSE "double"
NewGrain(p) == [f \in Held |-> p]
Switched(g, p) == [f \in Held |-> Coarser(g[f], p)]
Assigned(g, f, p) == [g EXCEPT ![f] = p]
(* nothing held is coarser than the object itself: the object is as good as one built so *)
Faithful(g, p) == \A f \in Held : Coarser(g[f], p) = p
Switch(p) == prec' = p /\ grain' = Switched(grain, p)
Assign(f) == grain' = Assigned(grain, f, prec) /\ UNCHANGED prec
=============================================================================
