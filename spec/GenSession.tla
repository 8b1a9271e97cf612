----------------------------- MODULE GenSession ------------------------------
(* Random sessions over two objects; every solve carries the settings record
   the specification has computed, so the replay can build the reference. *)
EXTENDS Session, Json
CONSTANTS Backends, Len0
VARIABLES b, acts, phase
vars == <<set, clean, b, acts, phase>>
Wide == [cell |-> {"a", "b", "c", "v", "w", "h", "s", "t", "u", "x", "d", "e", "f", "p", "q", "r", "n"}, fto |-> {"3,0", "2,1", "1,1", "3", "1,2", "0,2", "6,0", "0,0"},
         theta |-> {"0", "0.35", "-0.6"}, phi |-> {"none", "0", "0.7"},
         pol |-> {"pol0", "pol1", "pol0.3", "psi0.5"}, wl |-> {"0.9", "1.3"}, period |-> {"1.7,1.3", "1.1,2.3", "1.7,2.3", "1.1,1.3"}, ntop |-> {"1", "1.5"},
         nbot |-> {"1", "2", "1.5-0.2j"}, thick |-> {"0.3,0.5", "0.7,0.05", "0,0.4", "0.35", "0.8", "0.2,0.3,0.1", "0.1,0,0.6"},
         ft |-> {"0", "1"}, enh |-> {"1", "0"}]
Narrow == [Wide EXCEPT !.cell = {"a", "c", "v", "s", "d", "p", "q"}, !.fto = {"3,0", "1,1"}]
(* cells that are easily taken for one another: one pixel apart, one pixel's
   absorption apart, layers swapped; or the same numbers in another shape *)
Kin(c) == CASE c \in {"a", "d", "e", "f"} -> {"a", "d", "e", "f"} [] c \in {"p", "q", "r"} -> {"p", "q", "r"} [] c \in {"v", "w", "n"} -> {"v", "w", "n"} [] OTHER -> Menu.cell
Half(v) == CASE v = "1.7,1.3" -> {"1.7,2.3", "1.1,1.3"} [] v = "1.1,2.3" -> {"1.7,2.3", "1.1,1.3"} [] OTHER -> {"1.7,1.3", "1.1,2.3"}
(* a stack and its thicknesses go together *)
Deep(cell) == CASE cell \in {"s", "x"} -> 1 [] cell \in {"t", "u"} -> 3 [] OTHER -> 2
DeepT(t) == CASE t \in {"0.35", "0.8"} -> 1 [] t \in {"0.2,0.3,0.1", "0.1,0,0.6"} -> 3 [] OTHER -> 2
Thicks(n) == {t \in Menu.thick : DeepT(t) = n}
Pick(S) == RandomElement(S)
(* parameters keep TLC from evaluating a random choice once and for all *)
Fresh(o, cell) == [cell |-> cell, fto |-> Pick(Menu.fto), theta |-> Pick(Menu.theta), phi |-> Pick(Menu.phi), pol |-> Pick(Menu.pol), wl |-> Pick(Menu.wl),
          period |-> Pick(Menu.period), ntop |-> Pick(Menu.ntop), nbot |-> Pick(Menu.nbot), thick |-> Pick(Thicks(Deep(cell))), ft |-> Pick(Menu.ft), enh |-> Pick(Menu.enh)]
Init == /\ b \in Backends /\ phase = "new" /\ acts = <<>> /\ set = [o \in Objs |-> [none |-> TRUE]] /\ clean = [o \in Objs |-> FALSE]
New == /\ phase = "new" /\ phase' = "run"
       /\ \E x \in {Pick(Menu.cell)} : \E y \in {Pick(Menu.cell)} : set' = [o \in Objs |-> Fresh(o, IF o = 1 THEN x ELSE y)]
       /\ UNCHANGED <<clean, b>>
       /\ acts' = [o \in Objs |-> [act |-> "new", obj |-> o, set |-> set'[o]]]
Log(q) == acts' = acts \o q /\ UNCHANGED <<b, phase>>
(* half of the steps assign, mostly what decides the formulation; what was
   assigned is usually solved before long *)
Shape == {"cell", "fto", "phi", "pol"}
PickField(a) == IF Pick(1..3) = 1 THEN Pick(Fields \ Shape) ELSE Pick(Shape)
PickKind(a) == LET r == Pick(1..16) IN IF r >= 15 THEN "twist" ELSE IF r <= 6 THEN "set" ELSE IF r <= 9 THEN "solve" ELSE IF r = 10 THEN "again" ELSE IF r = 11 THEN "both"
               ELSE IF r = 12 /\ b # 0 THEN "with" ELSE "field"
Allowed(o, f) == IF f = "thick" THEN Thicks(Deep(set[o].cell)) ELSE Menu[f]
Grid(a) == [grid |-> Pick({"5,4,3", "2,6,4", "5,4,2"}), inp |-> Pick({"100", "100", "010", "111", "011"})]
(* one setting moves, to something else that resembles it *)
Move(o, f) == LET all == {v \in Allowed(o, f) : v # set[o][f] /\ (f = "cell" => Deep(v) = Deep(set[o].cell))}
                  near == CASE f = "cell" -> all \cap Kin(set[o].cell) [] f = "period" -> all \cap Half(set[o].period) [] OTHER -> all
              IN IF near # {} THEN near ELSE {set[o][f]}
PickMove(a) == IF Pick(1..2) = 1 THEN Pick({"cell", "period", "fto"}) ELSE Pick(Fields)
Solved(o, k) == [act |-> k, obj |-> o, set |-> set[o]]
SetAct(o, f, v) == [act |-> "set", obj |-> o, field |-> f, value |-> v]
Step == /\ phase = "run" /\ Len(acts) < Len0
        /\ \E o \in {Pick(Objs)} : \E k \in {PickKind(acts)} : \E g \in {Grid(acts)} :
             CASE k \in {"set", "with"} ->
                    \E f \in {PickField(acts)} : \E v \in {Pick(Allowed(o, f))} :
                      IF f = "cell" /\ Deep(v) # Deep(set[o].cell)
                      THEN \E t \in {Pick(Thicks(Deep(v)))} :
                             /\ Assign2(o, "cell", v, "thick", t)
                             /\ Log(IF Pick(1..2) = 1 THEN <<SetAct(o, "cell", v), SetAct(o, "thick", t)>> ELSE <<SetAct(o, "thick", t), SetAct(o, "cell", v)>>)
                      ELSE IF k = "set" THEN Assign(o, f, v) /\ Log(<<SetAct(o, f, v)>>)
                      ELSE AssignSolve(o, f, v) /\ Log(<<[act |-> "with", obj |-> o, field |-> f, value |-> v, set |-> set'[o]]>>)
               [] k = "twist" -> \E f \in {PickMove(acts)} : \E v \in {Pick(Move(o, f))} :
                      AssignSolve(o, f, v) /\ Log(<<Solved(o, "solve"), SetAct(o, f, v), g @@ [act |-> Pick({"solve", "both"}), obj |-> o, set |-> set'[o]]>>)
               [] k = "solve" -> Solve(o) /\ Log(<<Solved(o, "solve")>>)
               [] k = "again" -> Solve(o) /\ Log(<<Solved(o, "solve"), Solved(o, "solve")>>)
               [] k = "both"  -> Solve(o) /\ Log(<<g @@ Solved(o, "both")>>)
               [] OTHER       -> IF clean[o] THEN Field(o) /\ Log(<<g @@ Solved(o, "field")>>) ELSE Solve(o) /\ Log(<<Solved(o, "solve"), g @@ Solved(o, "field")>>)
Finish == /\ phase = "run" /\ Len(acts) >= Len0 /\ phase' = "done" /\ UNCHANGED <<set, clean, b>>
          /\ \E g \in {Grid(acts)} : acts' = acts \o [o \in Objs |-> g @@ Solved(o, "both")]
          /\ PrintT("@SCN " \o ToJson([b |-> b, acts |-> acts']))
Next == New \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
