----------------------------- MODULE DescentModel -----------------------------
(* Exhaustive over sessions with one parameter and a polynomial loss: asking for
   a gradient changes nothing and answers the derivative (the extrapolated
   quotient is exact up to the fourth degree), k steps of plain descent are the
   k-fold composition of one, a step never looks at earlier calls, and a small
   step never raises a convex loss. *)
EXTENDS Integers, Sequences, BigRat
CONSTANTS Coefs, Starts, Rate, MaxLen
VARIABLES c, p, u, log
vars == <<c, p, u, log>>
D == INSTANCE Descent
F(k, x) == RAdd(k[1], RMul(x, RAdd(k[2], RMul(x, RAdd(k[3], RMul(x, RAdd(k[4], RMul(x, k[5]))))))))
DF(k, x) == RAdd(k[2], RMul(x, RAdd(RMul(2, k[3]), RMul(x, RAdd(RMul(3, k[4]), RMul(x, RMul(4, k[5])))))))
H == "1/8"
Sten(k, x) == <<F(k, RSub(x, RMul(2, H))), F(k, RSub(x, H)), F(k, RAdd(x, H)), F(k, RAdd(x, RMul(2, H)))>>
Grd(k, x) == D!Slope(Sten(k, x), H)
Init == c \in [1..5 -> Coefs] /\ p \in Starts /\ u = "0" /\ log = <<>>
Ask == /\ Len(log) < MaxLen /\ log' = Append(log, [act |-> "grad", p |-> p, g |-> Grd(c, p)]) /\ UNCHANGED <<c, p, u>>
RECURSIVE Steps(_, _, _, _, _)
Steps(k, m, x, w, n) == IF n = 0 THEN <<x, w>> ELSE LET w1 == D!Velocity(m, w, Grd(k, x)) IN Steps(k, m, D!Moved(Rate, x, w1), w1, n - 1)
Fit(n, m) == /\ Len(log) < MaxLen
             /\ p' = Steps(c, m, p, 0, n)[1] /\ log' = Append(log, [act |-> "fit", p |-> p, n |-> n, m |-> m, to |-> p']) /\ UNCHANGED <<c, u>>
Next == Ask \/ (\E n \in 1..2, m \in {"0", "1/2"} : Fit(n, m))
Spec == Init /\ [][Next]_vars
Exact == REq(Grd(c, p), DF(c, p))
Asked == \A i \in DOMAIN log : log[i].act = "grad" => REq(log[i].g, DF(c, log[i].p))
Composed == REq(Steps(c, 0, p, 0, 2)[1], Steps(c, 0, Steps(c, 0, p, 0, 1)[1], 0, 1)[1])
Repeat == \A i, j \in DOMAIN log : (log[i].act = log[j].act /\ REq(log[i].p, log[j].p) /\ log[i].act = "fit" /\ log[i].n = log[j].n /\ log[i].m = log[j].m) => REq(log[i].to, log[j].to)
Downhill == (c[4] = "0" /\ c[5] = "0" /\ RLeq(0, c[3])) => RLeq(F(c, Steps(c, 0, p, 0, 1)[1]), F(c, p))
=============================================================================
