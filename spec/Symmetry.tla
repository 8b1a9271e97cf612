------------------------------ MODULE Symmetry ------------------------------
(* Symmetry operations of the diffraction problem: each maps a Device
   configuration to an equivalent one (Act) and an order of the first to the
   order of the second that carries the same light (MapOrder). *)
EXTENDS Device
Op(n, k) == [op |-> n, k |-> k]
OpsAll == {Op("shiftx", 1), Op("shiftx", 3), Op("shifty", 1), Op("shifty", 2), Op("mirrorx", 0), Op("mirrory", 0), Op("swap", 0),
           Op("scale", 0), Op("tilex", 2), Op("tiley", 2), Op("tilex", 3)}
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* mirroring turns the sense of the polarisation angle *)
FlipPol(p) == IF p.by = "share" THEN [by |-> "mpsi", v |-> 9 * p.v - 90000] ELSE IF p.by = "pol" THEN IF p.v \in {0, 100} THEN p ELSE [by |-> "psi", v |-> -((90 * (100 - p.v)) \div 100)]
              ELSE [p EXCEPT !.v = -@]
FlipX(c) == IF c.phi.none THEN [c EXCEPT !.sin = RNeg(c.sin)] ELSE [c EXCEPT !.phi.c = -@]
FlipY(c) == IF c.phi.none THEN c ELSE [c EXCEPT !.phi.s = -@]
MapCell(c, F(_)) == [l \in DOMAIN c.cell |-> F(c.cell[l])]
RollRow(row, k) == [x \in DOMAIN row |-> row[1 + ((x - 1 - k) % Len(row))]]
Lams == [x \in {"1", "0.3", "7.5", "900", "1.55e-6", "0.0006"} |-> CASE x = "1" -> "900" [] x = "0.3" -> "1" [] x = "7.5" -> "0.3" [] x = "900" -> "1.55e-6" [] x = "1.55e-6" -> "0.0006" [] OTHER -> "7.5"]
Act(a, c) ==
  CASE a.op = "shiftx" -> LET F(lay) == [r \in DOMAIN lay |-> RollRow(lay[r], a.k)] IN [c EXCEPT !.cell = MapCell(c, F)]
    [] a.op = "shifty" -> LET F(lay) == [r \in DOMAIN lay |-> lay[1 + ((r - 1 + a.k) % Len(lay))]] IN [c EXCEPT !.cell = MapCell(c, F)]
    [] a.op = "mirrorx" -> LET F(lay) == [r \in DOMAIN lay |-> Rev(lay[r])] IN [FlipX(c) EXCEPT !.cell = MapCell(c, F), !.pol = FlipPol(c.pol)]
    [] a.op = "mirrory" -> LET F(lay) == Rev(lay) IN [FlipY(c) EXCEPT !.cell = MapCell(c, F), !.pol = FlipPol(c.pol)]
    [] a.op = "swap" -> (* mirror at the diagonal x = y; row 1 is at the largest y *)
         LET F(lay) == [r \in 1..c.shape.cols |-> [x \in 1..c.shape.rows |-> lay[c.shape.rows + 1 - x][c.shape.cols + 1 - r]]]
         IN [c EXCEPT !.cell = MapCell(c, F), !.pol = FlipPol(c.pol), !.qx = c.qy, !.qy = c.qx,
                      !.shape = [c.shape EXCEPT !.rows = c.shape.cols, !.cols = c.shape.rows, !.fx = c.shape.fy, !.fy = c.shape.fx],
                      !.phi = IF c.phi.none THEN Phi(0, 5) ELSE [c.phi EXCEPT !.c = c.phi.s, !.s = c.phi.c]]
    [] a.op = "scale" -> [c EXCEPT !.lam = Lams[c.lam]]
    [] a.op = "tilex" -> LET F(lay) == [r \in DOMAIN lay |-> [x \in 1..(a.k * c.shape.cols) |-> lay[r][1 + ((x - 1) % c.shape.cols)]]]
                         IN [c EXCEPT !.cell = MapCell(c, F), !.shape.cols = a.k * @, !.shape.fx = a.k * @, !.qx = RDiv(c.qx, a.k)]
    [] a.op = "tiley" -> LET F(lay) == [r \in 1..(a.k * c.shape.rows) |-> lay[1 + ((r - 1) % c.shape.rows)]]
                         IN [c EXCEPT !.cell = MapCell(c, F), !.shape.rows = a.k * @, !.shape.fy = a.k * @, !.qy = RDiv(c.qy, a.k)]
MapOrder(a, o) ==
  CASE a.op = "mirrorx" -> <<o[1], -o[2]>>
    [] a.op = "mirrory" -> <<-o[1], o[2]>>
    [] a.op = "swap" -> <<o[2], o[1]>>
    [] a.op = "tilex" -> <<o[1], a.k * o[2]>>
    [] a.op = "tiley" -> <<a.k * o[1], o[2]>>
    [] OTHER -> o
(* The factorisation rules treat x and y in a fixed order, so a truncated
   solve commutes with exchanging them only where each layer varies along one
   axis; the discrete series samples a longer cell differently, so tiling is
   exact for the continuous one. *)
OneAxis(lay) == (\A r \in DOMAIN lay : lay[r] = lay[1]) \/ (\A r \in DOMAIN lay : \A x \in DOMAIN lay[r] : lay[r][x] = lay[r][1])
Allowed(a, c) ==
  LET ff == Width(c) * Height(c)
  IN CASE a.op = "swap" -> (c.shape.rows > 1 \/ c.shape.fy > 0) /\ \A l \in DOMAIN c.cell : OneAxis(c.cell[l])
       [] a.op = "shifty" -> c.shape.rows > 1
       [] a.op = "tilex" -> c.ft = 1 /\ ff * a.k <= 45 /\ c.shape.cols * a.k <= 24
       [] a.op = "tiley" -> c.ft = 1 /\ ff * a.k <= 45 /\ c.shape.rows * a.k <= 12 /\ c.shape.rows > 1
       [] OTHER -> TRUE
(* light sent back along the exit channel: layers in opposite order, media
   exchanged, in-plane wave vector reversed *)
Reversible(c) == ~Absorbing(c) /\ PropBot(c, <<0, 0>>)
Back(c) == LET s == RDiv(RMul(c.ntop, c.sin), c.nbot \div 1000)
               d == [c EXCEPT !.ntop = c.nbot \div 1000, !.nbot = c.ntop * 1000, !.sin = s, !.cell = Rev(c.cell), !.thick = Rev(c.thick)]
           IN IF c.phi.none THEN [d EXCEPT !.sin = RNeg(s)] ELSE [d EXCEPT !.phi.c = -@, !.phi.s = -@]
=============================================================================
