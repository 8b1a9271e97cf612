------------------------------- MODULE Present -------------------------------
(* Ways of presenting the same one-dimensional grating to the solver.  Every
   operator maps a Device configuration to an equivalent one; Embed(c, d)
   relates the diffraction orders of two presentations. *)
EXTENDS Device
GiveAzimuth(c) == IF c.phi.none THEN [c EXCEPT !.phi = Phi(5, 0)] ELSE c
RepeatRows(c, k) == [c EXCEPT !.shape.rows = k * c.shape.rows,
                              !.cell = [l \in DOMAIN c.cell |-> [r \in 1..(k * c.shape.rows) |-> c.cell[l][1 + ((r - 1) \div k)]]]]
AddYOrders(c, n) == [c EXCEPT !.shape.fy = @ + n]
OtherPeriodY(c, q) == [c EXCEPT !.qy = q]
(* formulation the documentation promises for a presentation *)
Pure(c) == c.pol.by = "pol" /\ c.pol.v \in {0, 100}
Route(c) == IF c.shape.rows > 1 \/ c.shape.fy > 0 THEN "2d" ELSE IF c.phi.none /\ Pure(c) THEN "1d" ELSE "conical"
(* patterns that do not vary along y *)
Uniform(c) == \A l \in DOMAIN c.cell : \A r \in DOMAIN c.cell[l] : c.cell[l][r] = c.cell[l][1]
=============================================================================
