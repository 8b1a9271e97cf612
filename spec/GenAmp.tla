------------------------------- MODULE GenAmp -------------------------------
(* Devices solved more than once for their complex amplitudes: on another
   backend, with the pattern moved, in another formulation, or, where the
   layers are homogeneous, against the exact film. *)
EXTENDS Symmetry
CONSTANTS Works, MaxAlts
P == INSTANCE Present
VARIABLES work, ops, alts
gvars == <<cfg, step, work, ops, alts>>
Cur == IF alts = <<>> THEN cfg ELSE alts[Len(alts)]
Even(c) == [c EXCEPT !.cell = [k \in DOMAIN c.cell |-> [r \in DOMAIN c.cell[k] |-> [x \in DOMAIN c.cell[k][r] |-> c.cell[k][1][1]]]]]
Choose == /\ Built /\ work = "none" /\ UNCHANGED <<step, ops, alts>>
          /\ \E w \in {w \in Works : w = "present" => cfg.kind = "1d"} :
               work' = w /\ cfg' = IF w = "film" THEN Even(cfg) ELSE cfg
Other(b) == IF b = 0 THEN 2 ELSE 0
Say(o, a) == ops' = Append(ops, o) /\ alts' = Append(alts, a) /\ UNCHANGED <<cfg, step, work>>
Cross == work = "cross" /\ alts = <<>> /\ Say(Op("backend", 0), [cfg EXCEPT !.b = Other(@)])
Shift == /\ work = "shift" /\ Len(alts) < MaxAlts
         /\ \E a \in {Op("shiftx", k) : k \in 1..(cfg.shape.cols - 1)} \cup {Op("shifty", k) : k \in 1..(cfg.shape.rows - 1)} : Say(a, Act(a, Cur))
Present == /\ work = "present" /\ Len(alts) < MaxAlts
           /\ \E d \in {P!GiveAzimuth(Cur)} \cup (IF Cur.shape.rows = 1 THEN {P!RepeatRows(Cur, 2)} ELSE {}) \cup (IF Cur.shape.fy = 0 THEN {P!AddYOrders(Cur, 1)} ELSE {}) :
                d # Cur /\ Say(Op("present", 0), d)
Steps == Cross \/ Shift \/ Present
Full == work = "film" \/ (work = "cross" /\ alts # <<>>) \/ (work # "none" /\ Len(alts) = MaxAlts) \/ (work = "present" /\ alts # <<>> /\ P!GiveAzimuth(Cur) = Cur /\ Cur.shape.rows > 1 /\ Cur.shape.fy > 0)
Bad(c) == Grazing(c) \/ Unsplit(c)
Done == /\ Built /\ Full /\ step' = step + 1 /\ UNCHANGED <<cfg, work, ops, alts>>
        /\ (Bad(cfg) \/ (\E i \in DOMAIN alts : Bad(alts[i])) \/ PrintT("@SCN " \o ToJson([cfg |-> cfg, work |-> work, ops |-> ops, alts |-> alts])))
Next == (Build /\ UNCHANGED <<work, ops, alts>>) \/ Choose \/ (Built /\ work # "none" /\ ~Full /\ Steps) \/ Done
Spec == BuildInit /\ work = "none" /\ ops = <<>> /\ alts = <<>> /\ [][Next]_gvars
=============================================================================
