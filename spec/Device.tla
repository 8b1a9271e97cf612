------------------------------- MODULE Device -------------------------------
(* The physical problem meent solves, and a state machine that assembles one
   choice by choice.  All quantities are exact:
     wavelengths and periods enter through q = 20 * wavelength / period,
     sin(theta) = sin/20, (cos phi, sin phi) = (c, s)/d (Pythagorean), the
       azimuth itself being given with w further whole turns,
       (sin and q may be integers or rationals written as strings)
     refractive indices are hundredths, encoded n*1000 + k for n - i k (and
       k = 903, 904, 905 for the real n + 1e-3, 1e-4, 1e-5),
     thicknesses are 1/10000 of a wavelength.
   cell[l][row][col] is the index map of layer l (layer 1 on the incidence
   side, row 1 at the largest y).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigRat
CONSTANTS Backends,      \* subset of {0, 1, 2}: numpy, jax, torch
          Kinds,         \* subset of {"1d", "2d"}
          Lossy,         \* may materials absorb?
          Fts,           \* subset of {0, 1, 2}: enhanced DFS, CFS, plain DFS
          Pols,          \* polarisation settings, see PolVal
          Thin,          \* use few, small shapes only
          Cutoff         \* may orders come close to grazing?

VARIABLES cfg, step

NoPhi == [none |-> TRUE, c |-> 5, s |-> 0, d |-> 5, w |-> 0]
Phi(c, s) == [none |-> FALSE, c |-> c, s |-> s, d |-> 5, w |-> 0]
Phis == {Phi(5, 0), Phi(4, 3), Phi(3, -4), Phi(0, 5), Phi(-3, 4), Phi(-5, 0), Phi(-4, -3)}
(* azimuths 2.9 and 0.29 degrees off an axis, or given beyond a half turn *)
PhiFine == {[none |-> FALSE, c |-> 1599, s |-> 80, d |-> 1601, w |-> 0], [none |-> FALSE, c |-> 159999, s |-> -800, d |-> 160001, w |-> 0],
            [none |-> FALSE, c |-> 80, s |-> 1599, d |-> 1601, w |-> 0], [none |-> FALSE, c |-> -800, s |-> 159999, d |-> 160001, w |-> 0],
            [none |-> FALSE, c |-> -1599, s |-> -80, d |-> 1601, w |-> 1], [none |-> FALSE, c |-> 3, s |-> -4, d |-> 5, w |-> 1],
            [none |-> FALSE, c |-> 4, s |-> 3, d |-> 5, w |-> -1]}

LosslessN == {100000, 130000, 150000, 200000, 250000, 348000}
LossyN    == {150020, 200001, 30250, 350100}
Palette   == IF Lossy THEN LosslessN \cup LossyN ELSE LosslessN

(* polarisation: by TM fraction (hundredths, or share: ten-thousandths) or by
   angle psi (degrees, or mpsi: thousandths) *)
PolTE == [by |-> "pol", v |-> 0]
PolTM == [by |-> "pol", v |-> 100]
PolMix == [by |-> "pol", v |-> 30]
PolPsi == [by |-> "psi", v |-> 35]
PolPure  == {PolTE, PolTM}
PolSet == {PolTE, PolTM, PolMix, PolPsi, [by |-> "share", v |-> 9996], [by |-> "share", v |-> 3], [by |-> "mpsi", v |-> 121000]}
PolDeg(p) == CASE p.by = "psi" -> RNorm(p.v) [] p.by = "mpsi" -> RDiv(p.v, 1000) [] p.by = "share" -> RDiv(90000 - 9 * p.v, 1000) [] OTHER -> RDiv(90 * (100 - p.v), 100)

(* shapes: layers, rows, columns, Fourier orders in x and y.  JAX compiles per
   shape, so it works on few of them. *)
Sh(l, r, c, x, y) == [layers |-> l, rows |-> r, cols |-> c, fx |-> x, fy |-> y]
Shapes(b, k) ==
  IF b = 1 \/ Thin
  THEN IF k = "1d" THEN {Sh(2, 1, 8, 3, 0), Sh(3, 1, 8, 3, 0), Sh(1, 1, 5, 3, 0)} \cup (IF Cutoff THEN {Sh(5, 1, 5, 3, 0)} ELSE {})
       ELSE {Sh(2, 4, 6, 2, 1), Sh(1, 4, 6, 1, 2), Sh(3, 3, 4, 1, 1)} \cup (IF Cutoff THEN {Sh(4, 3, 4, 1, 1), Sh(2, 2, 3, 2, 1)} ELSE {})
  ELSE IF k = "1d" THEN {Sh(1, 1, 8, 3, 0), Sh(2, 1, 8, 3, 0), Sh(3, 1, 5, 2, 0), Sh(2, 1, 7, 5, 0), Sh(1, 1, 4, 0, 0), Sh(4, 1, 6, 2, 0), Sh(1, 1, 12, 1, 0),
                         Sh(6, 1, 4, 1, 0), Sh(1, 1, 20, 9, 0), Sh(2, 1, 3, 12, 0)}
  ELSE {Sh(2, 4, 6, 2, 1), Sh(1, 5, 3, 1, 2), Sh(3, 3, 4, 1, 1), Sh(2, 6, 5, 0, 2), Sh(2, 2, 7, 3, 0), Sh(1, 4, 4, 2, 2), Sh(1, 3, 2, 0, 0),
        Sh(5, 3, 3, 1, 1), Sh(1, 9, 10, 3, 2), Sh(2, 5, 1, 1, 3), Sh(1, 1, 6, 1, 1)}

Thicknesses == {3, 20, 100, 700, 1500, 2300, 4000, 6600, 11000, 26000} \cup (IF Cutoff THEN {81000} ELSE {})
Near(m, other) == <<m, m + RandomElement(903..905), IF RandomElement(1..2) = 1 THEN other ELSE m>>
Dims == IF Cutoff THEN <<"b", "kind", "shape", "phi", "ntop", "nbot", "qx", "qy", "lam", "pol", "ft", "cplx", "thick", "mats", "style", "cell", "sin">>
        ELSE <<"b", "kind", "shape", "phi", "ntop", "nbot", "qx", "qy", "sin", "lam", "pol", "ft", "cplx", "thick", "mats", "style", "cell">>

(* the angle at which order m, in the plane of incidence, is d short of (or
   beyond) grazing in a half space of index n; sin in twentieths *)
SkimAt(c, n, m, d) == RDiv(RMul(500, RSub(RMul(n, RAdd(20, d)), RMul(100 * m, c.qx))), 100 * c.ntop * c.phi.c)
RandSeq(n, S) == [i \in 1..n |-> RandomElement(S)]

(* a homogeneous layer *)
Homogeneous(lay) == \A r \in DOMAIN lay : \A x \in DOMAIN lay[r] : lay[r][x] = lay[1][1]
Choices(d, c) ==
  CASE d = "b"     -> Backends
    [] d = "kind"  -> Kinds
    [] d = "shape" -> Shapes(c.b, c.kind)
    [] d = "phi"   -> IF c.kind = "1d" /\ RandomElement(1..2) = 1 THEN {NoPhi} ELSE {NoPhi} \cup Phis \cup (IF Cutoff THEN PhiFine ELSE {})
    [] d = "sin"   -> IF Cutoff /\ c.phi.s = 0 /\ RandomElement(1..3) = 1
                      THEN LET films == {c.cell[l1][1][1] \div 1000 : l1 \in {l2 \in DOMAIN c.cell : Homogeneous(c.cell[l2])}}
                               ns == IF films # {} /\ RandomElement(1..2) = 1 THEN films ELSE {c.ntop, c.nbot \div 1000, c.mats[1] \div 1000, c.mats[2] \div 1000, c.mats[3] \div 1000}
                               at == {SkimAt(c, n, m, d1) : n \in {RandomElement(ns)}, m \in {RandomElement((-c.shape.fx)..c.shape.fx), 0}, d1 \in {"1/100", "-1/100", "1/25", "-1/25"}}
                               ok == {s \in at : RLt(RAbs(s), "39/2")}
                           IN IF ok = {} THEN {0, 3, 7} ELSE {RandomElement(ok)}
                      ELSE IF Cutoff /\ RandomElement(1..12) = 1 THEN {"199/10", "-197/10"}
                      ELSE {0, 3, 7, 11, 16, 19, -8, -17}
    [] d = "ntop"  -> {100, 130, 152, 200, 345}
    [] d = "nbot"  -> {100000, 145000, 200000, 350000} \cup (IF Lossy THEN {150020, 20300, 300100, 145001} ELSE {})
    [] d = "qx"    -> {3, 6, 9, 13, 17, 23, 31, 53}
    [] d = "qy"    -> {4, 7, 11, 15, 19, 27, 37, 59}
    [] d = "lam"   -> {"1", "0.3", "7.5", "900", "1.55e-6", "0.0006"}
    [] d = "pol"   -> IF RandomElement(1..5) <= (IF c.kind = "1d" /\ c.phi.none THEN 3 ELSE 1) /\ PolPure \subseteq Pols THEN PolPure ELSE Pols
    [] d = "ft"    -> Fts
    [] d = "cplx"  -> IF Lossy THEN {TRUE} ELSE BOOLEAN
    [] d = "thick" -> {RandSeq(c.shape.layers, Thicknesses)}
    [] d = "mats"  -> {IF RandomElement(1..6) = 1 THEN Near(RandomElement(LosslessN), RandomElement(Palette)) ELSE RandSeq(3, Palette)}
    [] d = "style" -> {RandSeq(c.shape.layers, {"free", "blocks", "uniform", "film", "lines"})}
    [] d = "cell"  -> {[l \in 1..c.shape.layers |-> [r \in 1..c.shape.rows |-> [x \in 1..c.shape.cols |->
                         CASE c.style[l] = "free"    -> c.mats[RandomElement(1..3)]
                           [] c.style[l] = "blocks"  -> c.mats[IF 2 * x <= c.shape.cols THEN 1 ELSE IF 2 * r <= c.shape.rows THEN 2 ELSE 3]
                           [] c.style[l] = "uniform" -> c.mats[1 + (l % 3)]
                           [] c.style[l] = "film"    -> IF x = 1 THEN c.mats[2] ELSE c.mats[1]
                           [] c.style[l] = "lines"   -> IF 2 * r <= c.shape.rows THEN c.mats[3] ELSE c.mats[1 + (r % 2)]]]]}

(* ------------------------------------------------------------ exact optics *)
Ntop(c)   == RDiv(c.ntop, 100)
NbotRe(c) == RDiv(c.nbot \div 1000, 100)
NbotIm(c) == RDiv(c.nbot % 1000, 100)
Absorbing(c) == (c.nbot % 1000) # 0
(* in-plane wave number of order (my, mx), in units of the vacuum wave number *)
Kx(c, mx) == RAdd(RDiv(RMul(c.ntop * c.phi.c, c.sin), 2000 * c.phi.d), RDiv(RMul(c.qx, mx), 20))
Ky(c, my) == RAdd(RDiv(RMul(c.ntop * c.phi.s, c.sin), 2000 * c.phi.d), RDiv(RMul(c.qy, my), 20))
Kt2(c, my, mx) == RAdd(RMul(Kx(c, mx), Kx(c, mx)), RMul(Ky(c, my), Ky(c, my)))
Orders(c) == {<<my, mx>> : my \in (-c.shape.fy)..c.shape.fy, mx \in (-c.shape.fx)..c.shape.fx}
PropTop(c, o) == RLt(Kt2(c, o[1], o[2]), RMul(Ntop(c), Ntop(c)))
PropBot(c, o) == Absorbing(c) \/ RLt(Kt2(c, o[1], o[2]), RMul(NbotRe(c), NbotRe(c)))
(* position of an order in the row-major flattened efficiency array *)
Width(c)  == 2 * c.shape.fx + 1
Height(c) == 2 * c.shape.fy + 1
Pos(c, o) == (o[1] + c.shape.fy) * Width(c) + (o[2] + c.shape.fx) + 1
(* an order (nearly) grazing in a half space or in a homogeneous layer makes
   the problem itself ill-conditioned, and the conical form also inverts
   kx^2 - n^2; such devices are not generated *)
Lossfree(code) == code % 1000 = 0 \/ code % 1000 > 900
Coarse(code) == IF code % 1000 > 900 THEN code - (code % 1000) ELSE code
Nearly(lay) == \A r \in DOMAIN lay : \A x \in DOMAIN lay[r] : Coarse(lay[r][x]) = Coarse(lay[1][1])
Graze(c, code) == /\ Lossfree(code)
                  /\ LET n == RDiv(code \div 1000, 100)
                         d2 == IF Cutoff THEN "1/2000" ELSE "1/100"
                         d1 == IF Cutoff THEN "1/5000" ELSE "1/200"
                     IN \E o \in Orders(c) : \/ RClose(Kt2(c, o[1], o[2]), RMul(n, n), d2)
                                              \/ RClose(RAbs(Kx(c, o[2])), n, d1)
                                              \/ RClose(RAbs(Ky(c, o[1])), n, d1)
Grazing(c) == \/ Graze(c, c.ntop * 1000)
              \/ Graze(c, c.nbot)
              \/ \E l \in DOMAIN c.cell : Nearly(c.cell[l]) /\ Graze(c, c.cell[l][1][1])

(* s and p of an order leaving exactly along the normal are not defined (the
   incident order excepted, where the azimuth defines them) *)
Along(c, o) == o # <<0, 0>> /\ RClose(Kt2(c, o[1], o[2]), 0, "1e-6")
Unsplit(c) == \E o \in Orders(c) : Along(c, o)

Lossless(c) == ~Absorbing(c) /\ \A l \in DOMAIN c.cell : \A r \in DOMAIN c.cell[l] : \A x \in DOMAIN c.cell[l][r] : Lossfree(c.cell[l][r][x])

(* -------------------------------------------------------------- assembling *)
BuildInit == cfg = [b |-> 0] /\ step = 1
Build == /\ step <= Len(Dims)
         /\ \E v \in Choices(Dims[step], cfg) : cfg' = (Dims[step] :> v) @@ cfg
         /\ step' = step + 1
Built == step = Len(Dims) + 1
=============================================================================
