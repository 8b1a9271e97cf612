------------------------------ MODULE GenField ------------------------------
(* A device and a way of sampling its field. *)
EXTENDS Device
VARIABLES grid
gvars == <<cfg, step, grid>>
Inputs == {<<TRUE, FALSE, FALSE>>, <<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<FALSE, TRUE, TRUE>>}
Grid == /\ Built /\ grid = [none |-> TRUE] /\ UNCHANGED step
           (* now and then a layer has no thickness *)
        /\ cfg' = (IF RandomElement(1..4) = 1 THEN [cfg EXCEPT !.thick[RandomElement(1..cfg.shape.layers)] = 0] ELSE cfg)
        /\ \E x \in {0, 1, 3} : \E y \in {0, 1} : \E z \in {2, 3, 4, 7} : \E i \in Inputs : \E f \in {2, 3} :
           \E q \in {[x |-> RandomElement(1..4), y |-> RandomElement(1..3), z |-> RandomElement(1..2)]} :
             grid' = [few |-> q, x |-> 2 * cfg.shape.fx + 1 + x, y |-> 2 * cfg.shape.fy + 1 + y, z |-> z, inp |-> i, fine |-> f]
Done == /\ Built /\ grid # [none |-> TRUE] /\ step' = step + 1 /\ UNCHANGED <<cfg, grid>>
        /\ (Grazing(cfg) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, grid |-> grid])))
Next == (Build /\ UNCHANGED grid) \/ Grid \/ Done
Spec == BuildInit /\ grid = [none |-> TRUE] /\ [][Next]_gvars
=============================================================================
