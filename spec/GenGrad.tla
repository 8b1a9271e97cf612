------------------------------- MODULE GenGrad -------------------------------
(* Sessions that ask for derivatives.  What:
     session  one object: gradients, fits, assignments and solves in any order
     own      a tensor of the user's reaches one setting, in one of three ways
     draw     a tensor of the user's is one measure of a drawn shape
     axes     gradient with respect to the three indices of every pixel, at a
              device whose three indices agree, or at one where they do not   *)
EXTENDS Device
CONSTANTS MaxAct, What
VARIABLES acts, n
gvars == <<cfg, step, acts, n>>
Pick(S) == RandomElement(S)
(* modes that coincide have no derivative one by one.  They do so where a layer does
   not couple the orders k and -k of a symmetric pair, that is, where it has a
   period shorter than the cell; such layers are left out *)
Short(lay) == LET R == Len(lay) C == Len(lay[1])
              IN \E dy \in 0..(R - 1), dx \in 0..(C - 1) : <<dy, dx>> # <<0, 0>> /\ \A r \in 1..R, x \in 1..C : lay[r][x] = lay[1 + ((r - 1 + dy) % R)][1 + ((x - 1 + dx) % C)]
Generic(c) == \A l \in DOMAIN c.cell : ~Short(c.cell[l])
Start == /\ Built /\ n = 0
         /\ \E ms \in {RandSeq(3, Palette)} : \E cc \in {[l \in 1..cfg.shape.layers |-> [r \in 1..cfg.shape.rows |-> [x \in 1..cfg.shape.cols |-> ms[Pick(1..3)]]]]} :
              \E s \in {Pick({3, 7, 11, -8})} :
              cfg' = [cfg EXCEPT !.cell = cc, !.lam = "1", !.sin = s]
         /\ n' = 1 /\ UNCHANGED <<step, acts>>
Fine == ~Grazing(cfg) /\ Generic(cfg) /\ ~Unsplit(cfg)
Turned(c) == ~c.phi.none /\ c.phi.s # 0
Mixed(c) == c.pol.by = "psi" \/ c.pol.v \notin {0, 100}
Pois(c, k) == {<<"thickness">>, <<"ucell">>, <<"theta">>, <<"period">>, <<"thickness", "period">>, <<"ucell", "thickness">>, <<"theta", "ucell", "period">>}
           \cup (IF Turned(c) THEN {<<"phi">>, <<"phi", "thickness">>} ELSE {}) \cup (IF Mixed(c) /\ (c.b # 1 \/ k = MaxAct) THEN {<<"psi">>} ELSE {})
Pixels(c) == c.shape.layers * c.shape.rows * c.shape.cols
(* angles are held as complex numbers, and a fit moves them off the real axis: left out *)
FitPois(c) == {<<"thickness">>, <<"period">>, <<"thickness", "period">>, <<"period", "thickness">>}
              \cup (IF Pixels(c) <= 16 THEN {<<"ucell">>, <<"ucell", "thickness">>, <<"period", "ucell", "thickness">>} ELSE {})
Loss(a) == [kind |-> Pick({"lin", "sq", "amp"}), s |-> Pick(1..9)]
MayFit(c) == c.b # 1 \/ c.ft # 1
Kind(a) == IF a = <<>> THEN Pick({"grad", "grad", "fit"}) ELSE Pick({"grad", "grad", "fit", "set", "solve"})
Act == /\ What = "session" /\ n = 1 /\ Fine /\ Len(acts) < MaxAct
       /\ \E k0 \in {Kind(acts)} : \E k \in {IF k0 = "fit" /\ ~MayFit(cfg) THEN "grad" ELSE k0} :
            acts' = Append(acts, CASE k = "grad" -> [act |-> "grad", pois |-> Pick(Pois(cfg, Len(acts) + 1)), loss |-> Loss(acts)]
                                   [] k = "fit" -> [act |-> "fit", pois |-> Pick(FitPois(cfg)), loss |-> Loss(acts), k |-> IF cfg.b = 1 THEN Pick(1..3) ELSE Pick(1..5), rate |-> Pick({"0.0001", "0.0004"}), m |-> Pick({"0", "0", "0.9"})]
                                   [] k = "set" -> [act |-> "set", thick |-> RandSeq(cfg.shape.layers, {700, 1500, 2300, 4000, 6600})]
                                   [] OTHER -> [act |-> "solve"])
       /\ UNCHANGED <<cfg, step, n>>
Owns(c) == {"thickness", "mixed", "theta", "period", "wavelength", "n_top", "n_bot", "ucell"} \cup (IF Turned(c) THEN {"phi"} ELSE {}) \cup (IF Mixed(c) THEN {"psi"} ELSE {}) \cup (IF c.kind = "1d" THEN {"period1"} ELSE {})
Shape(l) == [shape |-> Pick({"rectangle", "rectangle", "ellipse"}), cx |-> Pick({48, 50, 53}), cy |-> Pick({46, 50, 52}), lx |-> Pick({21, 33, 44}), ly |-> Pick({17, 30, 41}),
             angle |-> Pick({"0", "0.3", "1.2", "2.1", "-0.7", "4.0"}), v |-> Pick(Palette), base |-> Pick(Palette), nt |-> Pick(1..3), np |-> Pick(1..3)]
DoOwn == /\ What = "own" /\ n = 1 /\ Fine /\ acts = <<>> /\ UNCHANGED <<cfg, step, n>>
         /\ acts' = <<[act |-> "own", what |-> Pick(Owns(cfg)), how |-> Pick({"ctor", "attr", "call"}), loss |-> Loss(acts)]>>
DoDraw == /\ What = "draw" /\ n = 1 /\ acts = <<>> /\ UNCHANGED <<cfg, step, n>>
          /\ \E p \in {[l \in 1..cfg.shape.layers |-> Shape(l)]} : \E w \in {Pick({"cx", "cy", "lx", "ly", "angle", "v"})}, at \in {Pick(1..cfg.shape.layers)} :
               acts' = <<[act |-> "draw", prog |-> p, what |-> IF w = "angle" /\ (p[at].angle = "0" \/ p[at].shape = "ellipse") THEN "lx" ELSE w, at |-> at, loss |-> Loss(acts)]>>
DoAxes == /\ What = "axes" /\ n = 1 /\ Fine /\ acts = <<>> /\ UNCHANGED <<cfg, step, n>>
          /\ \E e \in {Pick({TRUE, FALSE})}, p \in {RandSeq(3, {0, 10, 35})} :
               acts' = <<[act |-> "axes", more |-> IF e THEN <<0, 0, 0>> ELSE p, loss |-> Loss(acts)]>>
DrawFine == \A l \in DOMAIN acts[1].prog : acts[1].prog[l].v # acts[1].prog[l].base
Done == /\ n = 1 /\ Len(acts) = (IF What = "session" THEN MaxAct ELSE 1) /\ n' = 2 /\ UNCHANGED <<cfg, step, acts>>
        /\ (What = "draw" => DrawFine) /\ ~Grazing(cfg)
        /\ PrintT("@SCN " \o ToJson([cfg |-> cfg, acts |-> acts]))
Next == (Build /\ UNCHANGED <<acts, n>>) \/ Start \/ Act \/ DoOwn \/ DoDraw \/ DoAxes \/ Done
Spec == BuildInit /\ acts = <<>> /\ n = 0 /\ [][Next]_gvars
=============================================================================
