------------------------------ MODULE ReprModel ------------------------------
(* Exhaustive over all maps of up to 3 x 3 pixels in three colours: each
   drawing of a map paints that map, refining keeps the colour of every point,
   and commutes with drawing. *)
EXTENDS Repr
CONSTANTS RMax, CMax
VARIABLES m, n
Base3 == {1, 2, 9}
Init == \E r \in 1..RMax, c \in 1..CMax : m \in [1..r -> [1..c -> 1..2]] /\ n = 0
(* one pixel is repainted in a third colour *)
Next == n < 2 /\ n' = n + 1 /\ \E r \in 1..Rows(m), x \in 1..Cols(m) : m' = [m EXCEPT ![r][x] = 3]
Spec == Init /\ [][Next]_<<m, n>>
DrawnRight == \A s \in Styles, b \in Base3 : Painted(Rows(m), Cols(m), b, Drawing(m, s, b)) = m
RefinedRight == \A ky \in 1..2, kx \in 1..3 : LET f == Refine(m, ky, kx) IN \A r \in 1..Rows(f), x \in 1..Cols(f) : f[r][x] = m[1 + (r - 1) \div ky][1 + (x - 1) \div kx]
Grow(b, ky, kx) == Box(ky * b.r0, ky * b.r1, kx * b.c0, kx * b.c1, b.v)
Commutes == LET d == Drawing(m, "rows", 9) IN Painted(2 * Rows(m), 3 * Cols(m), 9, [i \in DOMAIN d |-> Grow(d[i], 2, 3)]) = Refine(m, 2, 3)
=============================================================================
