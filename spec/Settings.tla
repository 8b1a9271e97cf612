------------------------------ MODULE Settings -------------------------------
(* The settings of a solver object: how values may be spelled, what a spelling
   means (its normal form), which values are refused, and that a refused value
   leaves everything as it was.

   A spelling is [how, v]: how it is written, and its numbers.
     scalars    int float npint npfloat array0 own0 complex
     sequences  list tuple array own
     others     none str dict                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat
VARIABLES set           \* the settings in normal form
Sp(how, v) == [how |-> how, v |-> v]
Plain   == {"int", "float"}
Scalars == Plain \cup {"npint", "npfloat", "array0", "own0"}
Seqs    == {"list", "tuple", "array", "own"}
(* fields: fto period thick theta phi pol psi wl ntop nbot cell ft enh.  psi and
   pol are two ways of setting the same thing, the share p of TM light *)
Understood(f, s) ==
  CASE f = "fto"     -> (s.how \in Plain \cup {"array0", "own0"} /\ Len(s.v) = 1) \/ (s.how \in Seqs /\ Len(s.v) \in 1..2)
    [] f = "period"  -> (s.how \in Plain /\ Len(s.v) = 1) \/ (s.how \in Seqs /\ Len(s.v) \in 1..2)
    [] f = "thick"   -> (s.how \in Plain /\ Len(s.v) = 1) \/ (s.how \in Seqs /\ Len(s.v) >= 1)
    [] f \in {"theta", "wl"} -> s.how \in Scalars
    [] f \in {"phi", "psi"}  -> s.how \in Scalars \cup {"none"}
    [] f = "pol"     -> s.how \in Scalars /\ RLeq(0, s.v[1]) /\ RLeq(s.v[1], 1)
    [] OTHER         -> FALSE
Norms(x) == [i \in DOMAIN x |-> RNorm(x[i])]
Share(deg) == RSub(1, RDiv(deg, 90))
Normal(f, s) ==
  CASE f = "fto"    -> IF Len(s.v) = 1 THEN <<RNorm(s.v[1]), "0">> ELSE Norms(s.v)
    [] f = "period" -> IF Len(s.v) = 1 THEN <<RNorm(s.v[1]), RNorm(s.v[1])>> ELSE Norms(s.v)
    [] f = "thick"  -> Norms(s.v)
    [] f = "psi"    -> Share(s.v[1])
    [] OTHER        -> IF s.how = "none" THEN "none" ELSE RNorm(s.v[1])
Slot(f) == IF f = "psi" THEN "pol" ELSE f
(* assigning an understood spelling changes one slot; "no psi" says nothing *)
Put(st, f, s) == IF f = "psi" /\ s.how = "none" THEN st ELSE [st EXCEPT ![Slot(f)] = Normal(f, s)]
Assign(f, s) == Understood(f, s) /\ set' = Put(set, f, s)
Refuse(f, s) == ~Understood(f, s) /\ set' = set
(* the plainest way of writing a normal form *)
Canon(f, x) == IF f \in {"fto", "period", "thick"} THEN Sp("list", x) ELSE IF x = "none" THEN Sp("none", <<>>) ELSE Sp("float", <<x>>)
=============================================================================
