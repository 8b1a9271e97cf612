------------------------------- MODULE GenAniso -------------------------------
(* Devices with three index maps per layer (cfg.cell along x, the others along y
   and z), and equivalent or related devices.  A run is [cfg, y, z, how, ops]:
   how = aniso (three maps), iso (cfg.cell alone), vector (boxes), and ops lead
   from the first device to this one. *)
EXTENDS Symmetry, Repr
CONSTANTS What
VARIABLES ys, zs, n, prog
gvars == <<cfg, step, ys, zs, n, prog>>
Pick(S) == RandomElement(S)
Perms == [Palette -> Palette]
RandMap(c) == [l \in DOMAIN c.cell |-> [r \in DOMAIN c.cell[l] |-> [x \in DOMAIN c.cell[l][r] |-> Pick(Palette)]]]
Recol(c, f) == [l \in DOMAIN c.cell |-> [r \in DOMAIN c.cell[l] |-> [x \in DOMAIN c.cell[l][r] |-> f[Coarse(c.cell[l][r][x])]]]]
RandF(S) == [v \in S |-> Pick(S)]
Even(m) == [l \in DOMAIN m |-> [r \in DOMAIN m[l] |-> [x \in DOMAIN m[l][r] |-> m[l][1][1]]]]
OneWay(m) == [l \in DOMAIN m |-> [r \in DOMAIN m[l] |-> [x \in DOMAIN m[l][r] |-> IF l % 2 = 1 THEN m[l][1][x] ELSE m[l][r][1]]]]
Kind(x) == IF What = "planar" THEN "planar" ELSE Pick({"free", "free", "iso", "film", "film", "sym", "vector"})
Maps == /\ Built /\ n = 0 /\ n' = 1
        /\ \E how \in {Pick({"free", "recolour"})}, k \in {Kind(n)} :
           \E f \in {RandF(Palette)}, g \in {RandF(Palette)} :
           \E a \in {IF how = "free" THEN RandMap(cfg) ELSE Recol(cfg, f)}, b \in {IF how = "free" THEN RandMap(cfg) ELSE Recol(cfg, g)} :
             /\ prog' = [kind |-> k, boxes |-> <<>>]
             /\ IF k = "film" THEN \E uni \in {Pick({TRUE, FALSE})} :
                       /\ cfg' = [cfg EXCEPT !.cell = Even(@), !.phi = IF uni \/ @.none \/ @.s = 0 THEN @ ELSE Phi(0, 5)]
                       /\ ys' = (IF uni THEN Even(cfg.cell) ELSE Even(a)) /\ zs' = Even(b)
                ELSE IF k = "iso" THEN cfg' = cfg /\ ys' = cfg.cell /\ zs' = cfg.cell
                ELSE IF k = "sym" THEN cfg' = [cfg EXCEPT !.cell = OneWay(@)] /\ ys' = OneWay(a) /\ zs' = OneWay(b)
                ELSE IF k = "planar" THEN cfg' = [cfg EXCEPT !.phi = IF @.s = 0 /\ @.c = 5 THEN @ ELSE NoPhi] /\ ys' = a /\ zs' = b
                ELSE cfg' = [cfg EXCEPT !.ft = IF k = "vector" THEN 1 ELSE @] /\ ys' = a /\ zs' = b
        /\ UNCHANGED step
(* a homogeneous layer whose in-plane polarised wave of some order does not move
   along z: ex ey = ex kx^2 + ey ky^2 *)
Eps(code) == RDiv(RMul(code \div 1000, code \div 1000), 10000)
Skims(c, x, y) == /\ Lossfree(x) /\ Lossfree(y)
                  /\ \E o \in Orders(c) : RClose(RMul(Eps(x), Eps(y)), RAdd(RMul(Eps(x), RMul(Kx(c, o[2]), Kx(c, o[2]))), RMul(Eps(y), RMul(Ky(c, o[1]), Ky(c, o[1])))), "1/50")
Grz(c, y, z) == \/ \E m \in {c.cell, y, z} : Grazing([c EXCEPT !.cell = m])
                \/ \E l \in DOMAIN y : Homogeneous(c.cell[l]) /\ Homogeneous(y[l]) /\ Skims(c, c.cell[l][1][1], y[l][1][1])
Run(c, y, z, how, ops) == [cfg |-> c, y |-> y, z |-> z, how |-> how, ops |-> ops]
(* a symmetry operation acts on the three maps; exchanging the axes exchanges two of them *)
ActAll(a, r) == LET cx == Act(a, r.cfg) cy == Act(a, [r.cfg EXCEPT !.cell = r.y]).cell cz == Act(a, [r.cfg EXCEPT !.cell = r.z]).cell
                IN IF a.op = "swap" THEN Run([cx EXCEPT !.cell = cy], cx.cell, cz, r.how, Append(r.ops, a)) ELSE Run(cx, cy, cz, r.how, Append(r.ops, a))
MayAct(a, r) == \A m \in {r.cfg.cell, r.y, r.z} : Allowed(a, [r.cfg EXCEPT !.cell = m])
Menu == {a \in OpsAll : a.op \in {"shiftx", "shifty", "mirrorx", "mirrory", "scale", "swap"}}
(* boxes of three indices; layer l shows base[l] where no box is *)
Box3(c) == [q |-> [a |-> Pick(0..c.shape.rows), b |-> Pick(0..c.shape.rows), c |-> Pick(0..c.shape.cols), d |-> Pick(0..c.shape.cols)], x |-> Pick(Palette), y |-> Pick(Palette), z |-> Pick(Palette), scalar |-> Pick({TRUE, FALSE, FALSE})]
Lo2(a, b) == IF a = b THEN 0 ELSE IF a < b THEN a ELSE b
Hi2(a, b, m) == IF a = b THEN m ELSE IF a < b THEN b ELSE a
Fix3(c, k) == [r0 |-> Lo2(k.q.a, k.q.b), r1 |-> Hi2(k.q.a, k.q.b, c.shape.rows), c0 |-> Lo2(k.q.c, k.q.d), c1 |-> Hi2(k.q.c, k.q.d, c.shape.cols),
               x |-> k.x, y |-> IF k.scalar THEN k.x ELSE k.y, z |-> IF k.scalar THEN k.x ELSE k.z, scalar |-> k.scalar]
Ly(c) == [boxes |-> <<Box3(c), Box3(c), Box3(c)>>, base |-> [x |-> Pick(Palette), y |-> Pick(Palette), z |-> Pick(Palette), scalar |-> Pick({TRUE, FALSE})], m |-> Pick(0..3)]
Draw == /\ n = 1 /\ prog.kind = "vector" /\ n' = 2 /\ UNCHANGED <<step>>
        /\ \E p \in {[l \in DOMAIN cfg.cell |-> Ly(cfg)]} :
           \E q \in {[l \in DOMAIN p |-> [base |-> IF p[l].base.scalar THEN [p[l].base EXCEPT !.y = p[l].base.x, !.z = p[l].base.x] ELSE p[l].base, boxes |-> [i \in 1..p[l].m |-> Fix3(cfg, p[l].boxes[i])]]]} :
             LET Show(f) == [l \in DOMAIN q |-> Painted(cfg.shape.rows, cfg.shape.cols, q[l].base[f], [i \in DOMAIN q[l].boxes |-> [r0 |-> q[l].boxes[i].r0, r1 |-> q[l].boxes[i].r1, c0 |-> q[l].boxes[i].c0, c1 |-> q[l].boxes[i].c1, v |-> q[l].boxes[i][f]]])]
             IN prog' = [prog EXCEPT !.boxes = q] /\ cfg' = [cfg EXCEPT !.cell = Show("x")] /\ ys' = Show("y") /\ zs' = Show("z")
Emit(laws, runs) == PrintT("@SCN " \o ToJson([kind |-> prog.kind, runs |-> runs, laws |-> laws, prog |-> prog.boxes]))
Fine3(r) == ~Grz(r.cfg, r.y, r.z) /\ ~Unsplit(r.cfg)
Double(m) == [l \in DOMAIN m |-> <<m[l][1], m[l][1]>>]
Done == /\ (n = 2 \/ (n = 1 /\ prog.kind # "vector")) /\ n' = 3 /\ UNCHANGED <<cfg, step, ys, zs, prog>>
        /\ LET b == Run(cfg, ys, zs, "aniso", <<>>)
               k == prog.kind
           IN ~Fine3(b) \/
              CASE k = "iso" -> Emit(<<"base", "iso">>, <<b, Run(cfg, ys, zs, "iso", <<>>)>>)
                [] k = "film" -> Emit(<<"film">>, <<b>>)
                [] k = "vector" -> Emit(<<"base", "drawn">>, <<b, Run(cfg, ys, zs, "vector", <<>>)>>)
                [] k = "planar" ->
                     (\E f \in {RandF(Palette)}, o \in {RandMap(cfg)} :
                        LET te == cfg.pol.v = 0
                            other == IF te THEN Run([cfg EXCEPT !.cell = Recol(cfg, f)], ys, o, "aniso", <<>>) ELSE Run(cfg, o, zs, "aniso", <<>>)
                            alone == IF te THEN Run([cfg EXCEPT !.cell = ys], ys, ys, "iso", <<>>) ELSE Run(cfg, o, zs, "aniso", <<>>)
                            twice == Run([cfg EXCEPT !.cell = Double(@), !.shape.rows = 2], Double(ys), Double(zs), "aniso", <<>>)
                        IN ~Fine3(other) \/ ~Fine3(alone) \/ Emit(<<"base", "blind", "blind", "rows">>, <<b, other, alone, twice>>))
                [] OTHER ->
                     (\E a1 \in {Pick({a \in Menu : MayAct(a, b)})} :
                        \E r1 \in {ActAll(a1, b)} :
                          \E a2 \in {Pick({a \in Menu : MayAct(a, r1)})} :
                            \E r2 \in {ActAll(a2, r1)} :
                              ~Fine3(r1) \/ ~Fine3(r2) \/ Emit(<<"base", "moved", "moved", "again">>, <<b, r1, r2, b>>))
Next == (Build /\ UNCHANGED <<ys, zs, n, prog>>) \/ Maps \/ Draw \/ Done
Spec == BuildInit /\ ys = <<>> /\ zs = <<>> /\ n = 0 /\ prog = [kind |-> "none", boxes |-> <<>>] /\ [][Next]_gvars
=============================================================================
