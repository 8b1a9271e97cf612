------------------------------- MODULE NkModel --------------------------------
(* Exhaustive: looking a wave length up by bisection, one probe per step, ends in
   the segment the definition of Nk.Value names, for every increasing table and
   every query in, between and around its rows; interpolation is exact on rows,
   bounded by its neighbours, and continuous across a row. *)
EXTENDS Nk, FiniteSets
CONSTANTS W, V, M
VARIABLES t, q, lo, hi
vars == <<t, q, lo, hi>>
Tables == {r \in UNION {[1..m -> [w : W, n : V, k : {0}]] : m \in 2..M} : \A i \in 1..(Len(r) - 1) : r[i].w < r[i + 1].w}
Qs == {1000 * w + d : w \in W, d \in {-500, 0, 500}} 
Init == /\ \E r \in Tables : t = [rows |-> r, ex |-> -9]
        /\ q \in Qs /\ lo = 0 /\ hi = Len(t.rows) + 1
Mid == (lo + hi) \div 2
Next == /\ hi - lo > 1 /\ UNCHANGED <<t, q>>
        /\ IF 1000 * t.rows[Mid].w <= q THEN lo' = Mid /\ UNCHANGED hi ELSE hi' = Mid /\ UNCHANGED lo
Spec == Init /\ [][Next]_vars
Qw == QueryW(t, q, 0)
Found == IF lo = 0 THEN Col(t.rows[1], "n")
         ELSE IF lo = Len(t.rows) THEN Col(t.rows[lo], "n")
         ELSE Line2(Qw, RowW(t, lo), Col(t.rows[lo], "n"), RowW(t, hi), Col(t.rows[hi], "n"))
Bracket == \A i \in DOMAIN t.rows : (i <= lo => 1000 * t.rows[i].w <= q) /\ (i >= hi => q < 1000 * t.rows[i].w)
Agrees == hi - lo = 1 => REq(Found, Value(t, Qw, "n"))
OnRow == \A i \in DOMAIN t.rows : REq(Value(t, RowW(t, i), "n"), Col(t.rows[i], "n"))
Bounded == \E i, j \in DOMAIN t.rows : RLeq(Col(t.rows[i], "n"), Value(t, Qw, "n")) /\ RLeq(Value(t, Qw, "n"), Col(t.rows[j], "n"))
=============================================================================
