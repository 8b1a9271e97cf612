------------------------------- MODULE GenRepr -------------------------------
(* A device given by a pixel map and the continuous series, and a walk of
   other descriptions of it: refined maps, drawings, and the discrete series
   on two samplings. *)
EXTENDS Device, Repr
CONSTANTS MaxAlts, KJax
VARIABLES alts
Ds == {"enh", "plain"}
Kfs(c) == IF KJax THEN {<<1, 2>>, <<2, 1>>} ELSE {<<1, 2>>, <<2, 1>>, <<3, 2>>, <<2, 5>>, <<1, 7>>}
Remap(c, ky, kx) == [c EXCEPT !.cell = [l \in DOMAIN c.cell |-> Refine(c.cell[l], ky, kx)], !.shape.rows = ky * @, !.shape.cols = kx * @]
(* a one-row cell is a one-dimensional device; repeating its row makes it a 2D cell, which is another description of it *)
Alt(c) == CASE RandomElement(1..4) <= 1 -> LET k == RandomElement(Kfs(c)) IN [how |-> "refine", cfg |-> Remap(c, k[1], k[2])]
            [] RandomElement(1..2) = 1 -> [how |-> "dfs", mode |-> RandomElement(Ds)]
            [] OTHER -> LET base == [l \in DOMAIN c.cell |-> IF RandomElement(1..2) = 1 THEN c.cell[l][1][1] ELSE 177000]
                            sty == RandomElement(Styles)
                        IN [how |-> "vector", style |-> sty, layers |-> [l \in DOMAIN c.cell |-> [base |-> base[l], boxes |-> <<>>]]]
(* the bases of a drawing are fixed in one step, its boxes filled in the next *)
Fill(c, a) == IF a.how # "vector" THEN a
              ELSE [a EXCEPT !.layers = [l \in DOMAIN a.layers |-> [base |-> a.layers[l].base, boxes |-> Drawing(c.cell[l], a.style, a.layers[l].base)]]]
VARIABLES pend
Pick1 == Built /\ pend = <<>> /\ Len(alts) < MaxAlts /\ pend' = <<Alt(cfg)>> /\ UNCHANGED <<cfg, step, alts>>
Pick2 == Built /\ pend # <<>> /\ alts' = Append(alts, Fill(cfg, pend[1])) /\ pend' = <<>> /\ UNCHANGED <<cfg, step>>
Done == /\ Built /\ pend = <<>> /\ Len(alts) = MaxAlts /\ step' = step + 1 /\ UNCHANGED <<cfg, alts, pend>>
        /\ (Grazing(cfg) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, alts |-> alts])))
Next == (Build /\ UNCHANGED <<alts, pend>>) \/ Pick1 \/ Pick2 \/ Done
Spec == BuildInit /\ alts = <<>> /\ pend = <<>> /\ [][Next]_<<cfg, step, alts, pend>>
=============================================================================
