----------------------------- MODULE GenLayers ------------------------------
(* Patterned devices and a walk of rewritings of their layer list that change
   nothing: split a layer, insert a layer of zero thickness, merge equal
   neighbours. *)
EXTENDS Device
InsertAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
CONSTANTS MaxOps
VARIABLES ops, alts
Cur == IF alts = <<>> THEN cfg ELSE alts[Len(alts)]
NL(c) == c.shape.layers
Cut(c, l, t) == [c EXCEPT !.shape.layers = @ + 1, !.cell = InsertAt(c.cell, l, c.cell[l]),
                          !.thick = InsertAt([c.thick EXCEPT ![l] = @ - t], l, t)]
Ghost(c, l, k) == [c EXCEPT !.shape.layers = @ + 1, !.cell = InsertAt(c.cell, l, c.cell[k]), !.thick = InsertAt(c.thick, l, 0)]
Merge(c, l) == [c EXCEPT !.shape.layers = @ - 1, !.cell = RemoveAt(c.cell, l), !.thick = RemoveAt([c.thick EXCEPT ![l + 1] = @ + c.thick[l]], l)]
Walk == /\ Built /\ Len(ops) < MaxOps /\ UNCHANGED <<cfg, step>>
        /\ \/ /\ NL(Cur) < 7
              /\ \E l \in {l \in 1..NL(Cur) : Cur.thick[l] > 1} : \E t \in {1, Cur.thick[l] \div 2} :
                   alts' = Append(alts, Cut(Cur, l, t)) /\ ops' = Append(ops, "split")
           \/ /\ NL(Cur) < 7
              /\ \E l \in 1..(NL(Cur) + 1) : \E k \in 1..NL(Cur) :
                   alts' = Append(alts, Ghost(Cur, l, k)) /\ ops' = Append(ops, "zero")
           \/ \E l \in {l \in 1..(NL(Cur) - 1) : Cur.cell[l] = Cur.cell[l + 1]} :
                   alts' = Append(alts, Merge(Cur, l)) /\ ops' = Append(ops, "merge")
Done == /\ Built /\ Len(ops) = MaxOps /\ step' = step + 1 /\ UNCHANGED <<cfg, ops, alts>>
        /\ (Grazing(cfg) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, ops |-> ops, alts |-> alts])))
Next == (Build /\ UNCHANGED <<ops, alts>>) \/ Walk \/ Done
Spec == BuildInit /\ ops = <<>> /\ alts = <<>> /\ [][Next]_<<cfg, step, ops, alts>>
=============================================================================
