------------------------------ MODULE PolModel -------------------------------
(* Exhaustive: any order of assignments; only the last counts, the two
   spellings are inverse to each other, and the polarisation power weights
   add up to one. *)
EXTENDS Integers, Sequences, TLC, BigRat
P == INSTANCE PolMachine
VARIABLES st, hist
As == {[by |-> "pol", v |-> v] : v \in {0, 30, 75, 100}} \cup {[by |-> "psi", v |-> v] : v \in {0, 35, 90, -40, 120}}
Init == hist = <<>> /\ \E p \in {"none"} : st = P!New(p, p)
Next == Len(hist) < 3 /\ \E a \in As : hist' = Append(hist, a) /\ st' = P!Apply(st, a)
Spec == Init /\ [][Next]_<<st, hist>>
LastWins == hist = <<>> \/ REq(st, P!Apply("17", hist[Len(hist)]))
Inverse == REq(P!OfPsi(RMul(90, RSub(1, P!PolOf(st)))), st)
RunsSame == REq(P!Run(P!New("none", "none"), hist), st)
Weights == LET s == RSin(P!PsiRad(st)) c == RCos(P!PsiRad(st)) IN RClose(RAdd(RMul(s, s), RMul(c, c)), 1, "1e-30")
Ends == (P!PureTE(st) <=> REq(P!PolOf(st), 0)) /\ (P!PureTM(st) <=> REq(P!PolOf(st), 1))
=============================================================================
