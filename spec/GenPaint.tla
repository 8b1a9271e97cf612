------------------------------ MODULE GenPaint -------------------------------
(* Drawings.  A device is assembled; then its pattern is replaced by a program
   of boxes painted over a base, layer by layer (kind paint), or its
   first layer receives up to three turned shapes, one over the other (kind turn).  Kind shape asks for the slabs of a single
   shape. *)
EXTENDS Device, Repr
CONSTANTS MaxBox, What
VARIABLES prog, n, out
gvars == <<cfg, step, prog, n, out>>
Pick(S) == RandomElement(S)
Turns == 0..3
NewBox(c) == (* edges anywhere on the grid, often the cell border *)
  LET R == c.shape.rows C == c.shape.cols
  IN [a |-> Pick(0..R), b |-> Pick(0..R), c |-> Pick(0..C), d |-> Pick(0..C), v |-> Pick(Palette), k |-> Pick(Turns), m |-> Pick({-1, 0, 1}), nt |-> Pick(1..4), np |-> Pick(1..4)]
Norm(q, c) == LET R == c.shape.rows C == c.shape.cols
              IN [r0 |-> IF q.a = q.b THEN 0 ELSE IF q.a < q.b THEN q.a ELSE q.b, r1 |-> IF q.a = q.b THEN R ELSE IF q.a < q.b THEN q.b ELSE q.a,
                  c0 |-> IF q.c = q.d THEN 0 ELSE IF q.c < q.d THEN q.c ELSE q.d, c1 |-> IF q.c = q.d THEN C ELSE IF q.c < q.d THEN q.d ELSE q.c,
                  v |-> q.v, k |-> q.k, m |-> q.m, nt |-> q.nt, np |-> q.np]
(* now and then a box repeats an earlier one, or continues at its edge *)
Again(q, old) == IF old = <<>> THEN q
                 ELSE LET o == old[Len(old)] r == Pick(1..6)
                      IN IF r = 1 THEN [q EXCEPT !.r0 = o.r0, !.r1 = o.r1, !.c0 = o.c0, !.c1 = o.c1]
                         ELSE IF r = 2 THEN [q EXCEPT !.r0 = o.r0, !.r1 = o.r1] ELSE q
Start == /\ Built /\ n = 0 /\ n' = 1 /\ UNCHANGED <<cfg, step, out>>
         /\ prog' = [l \in 1..cfg.shape.layers |-> [base |-> Pick(Palette), want |-> Pick(0..MaxBox), boxes |-> <<>>]]
Add == /\ Built /\ n = 1 /\ \E l \in DOMAIN prog : Len(prog[l].boxes) < prog[l].want
       /\ LET l == CHOOSE l \in DOMAIN prog : Len(prog[l].boxes) < prog[l].want /\ \A j \in 1..(l - 1) : Len(prog[j].boxes) >= prog[j].want
          IN \E q \in {NewBox(cfg)} : prog' = [prog EXCEPT ![l].boxes = Append(@, Again(Norm(q, cfg), prog[l].boxes))]
       /\ UNCHANGED <<cfg, step, n, out>>
Whole(c) == [c EXCEPT !.cell = [l \in DOMAIN prog |-> Painted(c.shape.rows, c.shape.cols, prog[l].base, prog[l].boxes)]]
(* the lines of the grid need not be equally far apart: widths of rows and columns, in units the pixel map resolves *)
Widths(k) == CASE Pick(1..4) <= 2 -> [i \in 1..k |-> 1]
               [] Pick(1..2) = 1 -> [i \in 1..k |-> Pick({1, 2, 5, 9})]
               [] OTHER -> [i \in 1..k |-> IF i = k \/ Pick(1..3) = 1 THEN 1 ELSE Pick(90..300)]
(* an edge very close to the cell border, along one axis *)
Sliver(k) == [i \in 1..k |-> IF i = 1 + (k \div 2) THEN Pick(1500..4000) ELSE 1]
Lines(c) == LET ux == [i \in 1..c.shape.cols |-> 1] uy == [i \in 1..c.shape.rows |-> 1]
            IN IF c.b # 1 /\ Pick(1..6) = 1 THEN IF c.shape.rows = 1 THEN [x |-> Sliver(c.shape.cols), y |-> uy] ELSE [x |-> ux, y |-> Sliver(c.shape.rows)]
               ELSE [x |-> Widths(c.shape.cols), y |-> IF c.shape.rows = 1 THEN uy ELSE Widths(c.shape.rows)]
DonePaint == /\ Built /\ What = "paint" /\ n = 1 /\ \A l \in DOMAIN prog : Len(prog[l].boxes) >= prog[l].want
             /\ n' = 2 /\ UNCHANGED <<cfg, step, prog, out>>
             /\ \E c \in {Whole(cfg)} : \E w \in {Lines(c)} : Grazing(c) \/ PrintT("@SCN " \o ToJson([kind |-> "paint", cfg |-> c, prog |-> prog, wx |-> w.x, wy |-> w.y]))
(* turned shapes in the first layer, well inside the cell; sizes in hundredths of the shorter period *)
Angles == {"0.2", "0.7", "1.3", "1.8", "2.4", "3.0", "3.5", "4.1", "4.6", "5.0", "5.9", "-0.6", "7.1"}
Turned(x) == [shape |-> Pick({"rectangle", "rectangle", "ellipse"}), cx |-> Pick({42, 47, 52, 59}), cy |-> Pick({41, 47, 56}), lx |-> Pick({20, 35, 50}), ly |-> Pick({10, 30, 45}),
              angle |-> Pick(Angles), nt |-> Pick(1..3), np |-> Pick(1..3), v |-> Pick(Palette)]
DoneTurn == /\ Built /\ What = "turn" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<cfg, step, prog>>
            /\ \E m \in {Pick({1, 1, 2, 3})} : out' = [base |-> Pick(Palette), objs |-> [i \in 1..m |-> Turned(i)]]
Sliced(o) == IF o.shape = "ellipse" THEN [o EXCEPT !.nt = 2 * @ + o.np + 1, !.np = 2 * o.nt + @ + 1] ELSE o
DoneTurn2 == /\ What = "turn" /\ n = 1 /\ n' = 2 /\ UNCHANGED <<cfg, step, prog, out>>
             /\ LET c == [cfg EXCEPT !.cell = [l \in DOMAIN @ |-> IF l = 1 THEN [r \in DOMAIN @[l] |-> [x \in DOMAIN @[l][r] |-> IF r = 1 /\ x = 1 THEN out.base ELSE out.objs[1].v]] ELSE @[l]]]
                IN Grazing(c) \/ PrintT("@SCN " \o ToJson([kind |-> "turn", cfg |-> c, base |-> out.base, objs |-> [i \in DOMAIN out.objs |-> Sliced(out.objs[i])]]))
DoneShape == /\ What = "shape" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<cfg, step, prog>>
             /\ out' = [b |-> Pick(Backends), shape |-> Pick({"rectangle", "ellipse"}), cx |-> Pick({"0.5", "1.37", "0", "-2.25"}), cy |-> Pick({"0.25", "0.9", "3.5"}),
                        lx |-> Pick({"0.2", "1", "0.75"}), ly |-> Pick({"0.35", "1", "1.6"}),
                        angle |-> Pick(Angles \cup {"0", "0.000001", "0.01", "1.562", "3.146", "4.708", "6.28", "1.5707963267948966", "3.141592653589793", "1.5", "1.6", "3.1", "-4.8"}), fine |-> Pick({TRUE, FALSE}), nt |-> Pick(1..6), np |-> Pick(1..6)]
DoneShape2 == /\ What = "shape" /\ n = 1 /\ n' = 2 /\ UNCHANGED <<cfg, step, prog, out>>
              /\ LET d == IF out.shape = "ellipse" THEN [out EXCEPT !.nt = IF out.fine THEN 120 + out.nt ELSE 7 + 6 * out.nt + out.np, !.np = IF out.fine THEN 120 + out.nt ELSE 7 + 6 * out.nt + out.np]
                          ELSE IF out.fine THEN [out EXCEPT !.nt = 16 + out.nt, !.np = 16 + out.np] ELSE out
                 IN PrintT("@SCN " \o ToJson([kind |-> "shape", s |-> d]))
Next == \/ (What # "shape" /\ Build /\ UNCHANGED <<prog, n, out>>) \/ (What = "paint" /\ (Start \/ Add \/ DonePaint)) \/ DoneTurn \/ DoneTurn2 \/ DoneShape \/ DoneShape2
Spec == BuildInit /\ prog = <<>> /\ n = 0 /\ out = [none |-> TRUE] /\ [][Next]_gvars
=============================================================================
