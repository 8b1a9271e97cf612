--------------------------- MODULE SymmetryModel ----------------------------
(* Exhaustive: along every walk of symmetry operations the orders keep their
   in-plane wave number and stay distinct, the pattern seen at corresponding
   points is the original one, and the involutions are involutions. *)
EXTENDS Symmetry
VARIABLES cur, mp, n, hist
Base(phi, sin) == [b |-> 0, kind |-> "2d", shape |-> Sh(1, 2, 3, 1, 1), phi |-> phi, sin |-> sin, ntop |-> 130, nbot |-> 150000, qx |-> 9,
  qy |-> 7, lam |-> "1", pol |-> PolMix, ft |-> 1, cplx |-> FALSE, thick |-> <<700>>, mats |-> <<100000, 200000, 150000>>, style |-> <<"free">>,
  cell |-> << << <<1, 2, 3>>, <<4, 5, 6>> >> >>]
Bases == {Base(p, s) : p \in {NoPhi, Phi(4, 3), Phi(0, 5), Phi(-3, 4)}, s \in {0, 11}}
MOps == {a \in OpsAll : a.k < 3}
MInit == cfg \in Bases /\ step = 0 /\ cur = cfg /\ n = 0 /\ mp = [o \in Orders(cfg) |-> o] /\ hist = <<>>
MNext == /\ n < 3 /\ n' = n + 1 /\ UNCHANGED <<cfg, step>>
         /\ \E a \in {a \in MOps : a.op = "swap" \/ Allowed(a, cur)} :
              /\ cur' = Act(a, cur) /\ hist' = Append(hist, a)
              /\ mp' = [o \in DOMAIN mp |-> MapOrder(a, mp[o])]
MSpec == MInit /\ [][MNext]_<<cfg, step, cur, mp, n, hist>>
SameWave == \A o \in DOMAIN mp : REq(Kt2(cfg, o[1], o[2]), Kt2(cur, mp[o][1], mp[o][2])) /\ PropTop(cfg, o) = PropTop(cur, mp[o])
Inside == \A o \in DOMAIN mp : mp[o] \in Orders(cur)
Distinct == Cardinality({mp[o] : o \in DOMAIN mp}) = Cardinality(DOMAIN mp)
Centre == mp[<<0, 0>>] = <<0, 0>>
(* every pixel value keeps its share of the cell *)
Count(c, v) == Cardinality({p \in (1..c.shape.rows) \X (1..c.shape.cols) : c.cell[1][p[1]][p[2]] = v})
Share == \A v \in 1..6 : Count(cur, v) * 6 = cur.shape.rows * cur.shape.cols
Dims2 == Len(cur.cell[1]) = cur.shape.rows /\ Len(cur.cell[1][1]) = cur.shape.cols
Involutions == \A a \in {Op("mirrorx", 0), Op("mirrory", 0), Op("swap", 0)} : LET t == Act(a, Act(a, cur)) IN t.cell = cur.cell /\ t.shape = cur.shape
TwiceBack == Reversible(cur) => LET t == Back(Back(cur)) IN t.cell = cur.cell /\ REq(t.sin, cur.sin) /\ t.ntop = cur.ntop /\ t.nbot = cur.nbot
BackWave == Reversible(cur) => LET t == Back(cur) IN REq(Kx(t, 0), RNeg(Kx(cur, 0))) /\ REq(Ky(t, 0), RNeg(Ky(cur, 0)))
(* mirrors and shifts act on points of the plane as they should: pixel (r, x) has its centre at (x, rows + 1 - r) *)
At(c, x, y) == c.cell[1][c.shape.rows + 1 - y][x]
Points == hist # <<>> /\ Len(hist) = 1 =>
  \A x \in 1..cfg.shape.cols : \A y \in 1..cfg.shape.rows :
    LET a == hist[1] v == At(cfg, x, y)
    IN CASE a.op = "mirrorx" -> At(cur, cfg.shape.cols + 1 - x, y) = v
         [] a.op = "mirrory" -> At(cur, x, cfg.shape.rows + 1 - y) = v
         [] a.op = "swap" -> At(cur, y, x) = v
         [] a.op = "shiftx" -> At(cur, 1 + ((x - 1 + a.k) % cfg.shape.cols), y) = v
         [] a.op = "shifty" -> At(cur, x, 1 + ((y - 1 + a.k) % cfg.shape.rows)) = v
         [] OTHER -> At(cur, x, y) = v
=============================================================================
