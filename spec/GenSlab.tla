------------------------------- MODULE GenSlab -------------------------------
(* Devices of homogeneous layers; every truncation, formulation and spelling
   is allowed, only the pattern is trivial.  Layers may vanish, repeat or be
   index-matched to their surroundings. *)
EXTENDS Device
Films(c) == [c EXCEPT !.cell = [l \in DOMAIN c.cell |-> [r \in DOMAIN c.cell[l] |-> [x \in DOMAIN c.cell[l][r] |-> c.cell[l][1][1]]]],
                      !.thick = [l \in DOMAIN c.thick |-> IF c.thick[l] = 6600 /\ l = 1 THEN 0 ELSE c.thick[l]]]
(* incidence just inside or beyond the critical angle of one of the films *)
Critical(c) ==
  LET at == {RDiv(RMul((c.cell[l][1][1]) \div 1000, RAdd(20, d)), c.ntop) : l \in DOMAIN c.cell, d \in {"1/100", "-1/100", "1/25", "-1/25", "1/1000"}}
      ok == {s \in at : RLt(s, "39/2")}
  IN IF Cutoff /\ ok # {} /\ RandomElement(1..3) = 1 THEN [c EXCEPT !.sin = RandomElement(ok)] ELSE c
Done == /\ Built /\ step' = step + 1 /\ UNCHANGED cfg
        /\ \E c \in {Critical(Films(cfg))} :
             Grazing(c) \/ PrintT("@SCN " \o ToJson([cfg |-> c, ops |-> <<>>, alts |-> <<>>]))
Next == Build \/ Done
Spec == BuildInit /\ [][Next]_<<cfg, step>>
=============================================================================
