----------------------------- MODULE PaintModel ------------------------------
(* Exhaustive: an edge-list painter in meent's style next to Repr's pointwise
   definition.  The painter keeps the sorted list of edges in x and in y, and
   a coarse table over them; a new box splits rows and columns of the table at
   its edges and overwrites the entries between them.  After every box the
   table shows, at every point of the grid, the colour Repr defines. *)
EXTENDS Repr
CONSTANTS R, C, MaxN
VARIABLES bs, xs, ys, tab
vars == <<bs, xs, ys, tab>>
(* ys, xs: increasing upper edges of the table's rows (from the top) and columns, the last one the cell border *)
Insert(s, e) == IF e = 0 \/ \E k \in DOMAIN s : s[k] = e THEN s
                ELSE LET k == CHOOSE k \in DOMAIN s : s[k] > e /\ (k = 1 \/ s[k - 1] < e) IN SubSeq(s, 1, k - 1) \o <<e>> \o SubSeq(s, k, Len(s))
Slot(s, p) == CHOOSE k \in DOMAIN s : p <= s[k] /\ (k = 1 \/ s[k - 1] < p)
Init == bs = <<>> /\ xs = <<C>> /\ ys = <<R>> /\ tab = << <<9>> >>
Boxes == {Box(a, b, c, d, v) : a \in 0..(R - 1), b \in 1..R, c \in 0..(C - 1), d \in 1..C, v \in {1, 2}}
Next == /\ Len(bs) < MaxN
        /\ \E b \in {q \in Boxes : q.r0 < q.r1 /\ q.c0 < q.c1} :
             /\ bs' = Append(bs, b)
             /\ ys' = Insert(Insert(ys, b.r0), b.r1) /\ xs' = Insert(Insert(xs, b.c0), b.c1)
             /\ tab' = [i \in DOMAIN ys' |-> [j \in DOMAIN xs' |->
                          IF ys'[i] > b.r0 /\ ys'[i] <= b.r1 /\ xs'[j] > b.c0 /\ xs'[j] <= b.c1 THEN b.v ELSE tab[Slot(ys, ys'[i])][Slot(xs, xs'[j])]]]
Spec == Init /\ [][Next]_vars
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Sorted == Increasing(xs) /\ Increasing(ys) /\ xs[Len(xs)] = C /\ ys[Len(ys)] = R
Shows == [r \in 1..R |-> [x \in 1..C |-> tab[Slot(ys, r)][Slot(xs, x)]]] = Painted(R, C, 9, bs)
=============================================================================
