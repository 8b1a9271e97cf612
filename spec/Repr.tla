-------------------------------- MODULE Repr --------------------------------
(* Descriptions of one piecewise constant pattern.
   Pixel map: rows from the largest y downwards, columns along x.
   Drawing:   a base colour and boxes [r0, r1, c0, c1, v] in pixel lines
              (r0 <= r < r1 counted from the top), painted in order. *)
EXTENDS Integers, Sequences, FiniteSets
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Box(r0, r1, c0, c1, v) == [r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1, v |-> v]
Covers(b, r, x) == b.r0 < r /\ r <= b.r1 /\ b.c0 < x /\ x <= b.c1
RECURSIVE Colour(_, _, _, _)
Colour(base, bs, r, x) == IF bs = <<>> THEN base
                          ELSE LET n == Len(bs) IN IF Covers(bs[n], r, x) THEN bs[n].v ELSE Colour(base, SubSeq(bs, 1, n - 1), r, x)
Painted(rows, cols, base, bs) == [r \in 1..rows |-> [x \in 1..cols |-> Colour(base, bs, r, x)]]
(* every pixel repeated *)
Refine(m, ky, kx) == [r \in 1..(ky * Rows(m)) |-> [x \in 1..(kx * Cols(m)) |-> m[((r - 1) \div ky) + 1][((x - 1) \div kx) + 1]]]
(* maximal runs of equal colour along one line, as <<from, to, colour>> *)
RECURSIVE Runs(_, _)
Runs(line, from) ==
  IF from > Len(line) THEN <<>>
  ELSE LET to == CHOOSE t \in from..Len(line) : (\A k \in from..t : line[k] = line[from]) /\ (t = Len(line) \/ line[t + 1] # line[from])
       IN <<<<from - 1, to, line[from]>>>> \o Runs(line, to + 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
Column(m, x) == [r \in 1..Rows(m) |-> m[r][x]]
ByRows(m) == Flat([r \in 1..Rows(m) |-> LET q == Runs(m[r], 1) IN [k \in DOMAIN q |-> Box(r - 1, r, q[k][1], q[k][2], q[k][3])]])
ByCols(m) == Flat([x \in 1..Cols(m) |-> LET q == Runs(Column(m, x), 1) IN [k \in DOMAIN q |-> Box(q[k][1], q[k][2], x - 1, x, q[k][3])]])
RevSeq(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* staircase: whole rows first, later runs on top of them *)
Stair(m) == Flat([r \in 1..Rows(m) |-> LET q == Runs(m[r], 1) IN [k \in DOMAIN q |-> Box(r - 1, r, q[k][1], Cols(m), q[k][3])]])
Keep(bs, base) == SelectSeq(bs, LAMBDA b : b.v # base)
Styles == {"rows", "cols", "rowsback", "stair"}
Drawing(m, style, base) ==
  CASE style = "rows" -> Keep(ByRows(m), base)
    [] style = "cols" -> Keep(ByCols(m), base)
    [] style = "rowsback" -> RevSeq(ByRows(m))
    [] style = "stair" -> Stair(m)
=============================================================================
