---------------------------- MODULE GenPrecision -----------------------------
(* A device, an object for it at some precision, and a history of precision
   changes, assignments of the same values anew, solves and field calculations *)
EXTENDS Device, Precision
CONSTANT Len0
VARIABLES acts, n
pvars == <<cfg, step, prec, grain, acts, n>>
Pick(S) == RandomElement(S)
P(x) == Pick({"double", "single"})
(* Single precision cannot separate modes that coincide.  They do in the 2D form
   where a layer has a period shorter than the cell (homogeneous layers above
   all), or where the illumination is symmetric at an axis *)
Short(lay) == LET R == Len(lay) C == Len(lay[1])
              IN \E dy \in 0..(R - 1), dx \in 0..(C - 1) : <<dy, dx>> # <<0, 0>> /\ \A r \in 1..R, x \in 1..C : lay[r][x] = lay[1 + ((r - 1 + dy) % R)][1 + ((x - 1 + dx) % C)]
Apart(c) == c.kind = "1d" \/ (c.sin # 0 /\ ~c.phi.none /\ c.phi.c # 0 /\ c.phi.s # 0 /\ \A l \in DOMAIN c.cell : ~Short(c.cell[l]))
(* nor modes of almost equal materials; and the exponentials of far evanescent orders leave its range *)
Plain(c) == /\ \A m \in DOMAIN c.mats : c.mats[m] % 1000 < 900
            /\ c.shape.fx <= 5 /\ c.qx * c.shape.fx < 100 /\ c.qy * c.shape.fy < 100
(* the ways of naming a precision *)
Name(p) == Pick(IF p = "double" THEN {"0", "np128", "own128"} ELSE {"1", "np64", "own64"})
Init == BuildInit /\ prec = "double" /\ grain = NewGrain("double") /\ acts = <<>> /\ n = 0
Log(r) == acts' = Append(acts, r)
(* 2D devices: every pixel chosen on its own, an azimuth off the axes *)
Vary == /\ Built /\ n = 0 /\ n' = 1 /\ UNCHANGED <<step, prec, grain, acts>>
        /\ IF cfg.kind = "1d" THEN UNCHANGED cfg
           ELSE \E cc \in {[l \in 1..cfg.shape.layers |-> [r \in 1..cfg.shape.rows |-> [x \in 1..cfg.shape.cols |-> cfg.mats[Pick(1..3)]]]]} :
                \E s \in {Pick({3, 7, 11, -8})}, ph \in {Pick({Phi(4, 3), Phi(3, -4), Phi(-3, 4)})} : cfg' = [cfg EXCEPT !.cell = cc, !.sin = s, !.phi = ph]
New == /\ n = 1 /\ ~Grazing(cfg) /\ ~Unsplit(cfg) /\ Apart(cfg) /\ Plain(cfg) /\ n' = 2 /\ UNCHANGED <<cfg, step>>
       /\ \E p \in {P(cfg)} : prec' = p /\ grain' = NewGrain(p) /\ Log([act |-> "new", p |-> p, name |-> Name(p), vec |-> cfg.kind = "2d" /\ Pick(1..3) = 1])
Fields == Held \ (IF cfg.phi.none THEN {"phi"} ELSE {})
Act == /\ n = 2 /\ Len(acts) < Len0 /\ UNCHANGED <<cfg, step, n>>
       /\ \E k \in {IF Len(acts) = Len0 - 1 THEN 3 ELSE Pick(1..5)} :
            CASE k = 1 -> \E p \in {P(acts)} : Switch(p) /\ Log([act |-> "switch", p |-> p, name |-> Name(p)])
              [] k = 2 -> \E f \in {Pick(Fields)} : Assign(f) /\ Log([act |-> "set", field |-> f])
              [] k = 5 /\ cfg.phi.c # 0 -> UNCHANGED <<prec, grain>> /\ Log([act |-> "field", prec |-> prec, faithful |-> Faithful(grain, prec)])
              [] OTHER -> UNCHANGED <<prec, grain>> /\ Log([act |-> "solve", prec |-> prec, faithful |-> Faithful(grain, prec)])
Done == /\ n = 2 /\ Len(acts) = Len0 /\ n' = 3 /\ UNCHANGED <<cfg, step, prec, grain, acts>>
        /\ PrintT("@SCN " \o ToJson([cfg |-> cfg, acts |-> acts]))
Next == (Build /\ UNCHANGED <<prec, grain, acts, n>>) \/ Vary \/ New \/ Act \/ Done
Spec == Init /\ [][Next]_pvars
=============================================================================
