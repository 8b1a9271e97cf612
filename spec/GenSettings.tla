----------------------------- MODULE GenSettings -----------------------------
(* Random sessions with one object: built with spelled values, then spelled
   assignments, values to be refused, and solves.  Every action carries the
   settings (normal form) that hold after it. *)
EXTENDS Settings, Json
CONSTANTS Backends, Len0, Few
VARIABLES b, nl, acts, phase
vars == <<set, b, nl, acts, phase>>
Pick(S) == RandomElement(S)
Spell1(h, S) == Sp(h, <<Pick(S)>>)
Angles == {"0", "0.35", "-0.6"}
(* what is plain in one place is an array in another; own is the backend's own array type *)
GoodCell(x) == Sp(Pick({"int32", "int64", "float32", "float64", "complex64", "complex128"} \cup (IF Few THEN {} ELSE {"list"})), <<Pick({"1", "2"})>>)
GoodOf(f, n) ==
  CASE f = "fto" -> IF Pick(1..3) = 1 THEN Spell1(Pick(Plain \cup {"array0", "own0"}), IF Few THEN {"2"} ELSE {"2", "3"})
                    ELSE Sp(Pick(Seqs), Pick(IF Few THEN {<<"2">>, <<"2", "0">>} ELSE {<<"2">>, <<"3">>, <<"2", "0">>, <<"1", "1">>, <<"2", "1">>}))
    [] f = "period" -> IF Pick(1..3) = 1 THEN (IF Pick(1..2) = 1 THEN Sp("int", <<"2">>) ELSE Spell1("float", {"1.5", "2.3"}))
                       ELSE Sp(Pick(Seqs), Pick({<<"1.5">>, <<"2.3">>, <<"1.5", "1.5">>, <<"1.7", "1.3">>, <<"1.25", "2.5">>}))
    [] f = "thick"  -> IF n = 1 /\ Pick(1..2) = 1 THEN Spell1("float", {"0.25", "0.3"})
                       ELSE Sp(Pick(Seqs), [i \in 1..n |-> Pick({"0.3", "0.5", "0.17"})])
    [] f = "theta"  -> IF Pick(1..4) = 1 THEN Sp(Pick({"int", "npint"}), <<"0">>) ELSE Spell1(Pick(Scalars \ {"int", "npint"}), Angles)
    [] f = "phi"    -> CASE Pick(1..3) = 1 -> Sp("none", <<>>) [] Pick(1..2) = 1 -> Sp(Pick({"int", "npint"}), <<"0">>) [] OTHER -> Spell1(Pick(Scalars \ {"int", "npint"}), {"0", "0.7", "-1.1"})
    [] f = "psi"    -> IF Pick(1..5) = 1 THEN Sp("none", <<>>) ELSE Spell1(Pick(Scalars \ {"int", "npint"}), {"0", "90", "45", "30", "17"})
    [] f = "pol"    -> IF Pick(1..2) = 1 THEN Spell1(Pick({"int", "npint"}), {"0", "1"}) ELSE Spell1(Pick(Scalars \ {"int", "npint"}), {"0", "1", "0.3", "0.5"})
    [] f = "wl"     -> IF Pick(1..3) = 1 THEN Spell1("int", {"1"}) ELSE Spell1(Pick({"float", "npfloat"}), {"1", "1.3"})
    [] OTHER        -> GoodCell(n)
Garbage == {Sp("str", <<>>), Sp("dict", <<>>)}
BadOf(f, k) ==
  CASE f = "fto"    -> Pick(Garbage \cup {Sp("none", <<>>)} \cup {Sp(h, <<"1", "1", "1">>) : h \in Seqs} \cup {Sp(h, <<>>) : h \in Seqs})
    [] f = "period" -> Pick(Garbage \cup {Sp("none", <<>>), Sp("complex", <<"1.5">>)})
    [] f = "thick"  -> Pick(Garbage \cup {Sp("none", <<>>), Sp("complex", <<"0.5">>)})
    [] f = "pol"    -> IF Pick(1..3) = 1 THEN Sp("str", <<>>) ELSE Spell1(Pick({"float", "npfloat", "array0"}), {"-0.25", "1.5", "-0.001", "1.001", "nan"})
    [] f = "prec"   -> Pick({Sp("str", <<>>), Sp("int", <<"2">>), Sp("float64", <<>>)})
    [] f = "cell"   -> Pick(Garbage \cup {Sp("tuple", <<"1">>), Sp("float", <<"2">>), Sp("strarray", <<>>)} \cup (IF k = 2 THEN {Sp("flat", <<>>), Sp("pairs", <<>>)} ELSE {Sp("bool", <<>>)}))
    [] OTHER        -> Sp("str", <<>>)
(* neither documented nor senseless: refused without effect, or taken at its meaning (and then set back) *)
OddOf(k) == CASE k = 1 -> [field |-> "psi", sp |-> Sp("list", <<"30">>)]
              [] k = 2 -> [field |-> "period", sp |-> Spell1(Pick({"array0", "own0", "npfloat"}), {"1.5"})]
              [] k = 3 -> [field |-> "fto", sp |-> Sp("npint", <<"2">>)]
              [] OTHER -> [field |-> "period", sp |-> Sp("npint", <<"2">>)]
Fields == {"fto", "period", "thick", "theta", "phi", "psi", "pol", "wl", "cell"}
BadFields == {"fto", "period", "thick", "theta", "phi", "psi", "pol", "cell", "prec"}
(* cells are named; their spelling does not matter either *)
Eff(st, f, s) == IF f = "cell" THEN [st EXCEPT !.cell = IF s.how = "list" THEN "v" ELSE s.v[1], !.kind = IF s.how = "list" THEN "vector" ELSE "raster"] ELSE Put(st, f, s)
Default == [fto |-> <<"0", "0">>, period |-> <<"1", "1">>, thick |-> <<"0">>, theta |-> "0", phi |-> "none", pol |-> "0", wl |-> "1", cell |-> "none", kind |-> "raster"]
Log(r) == acts' = Append(acts, r)
Init == b \in Backends /\ nl \in 1..2 /\ set = Default /\ acts = <<>> /\ phase = "new"
(* the constructor takes the settings one after the other (pol before psi) *)
CtorOrder == <<"fto", "period", "thick", "theta", "phi", "pol", "psi", "wl", "cell">>
RECURSIVE After(_, _, _)
After(st, sp, i) == IF i > Len(CtorOrder) THEN st ELSE After(Eff(st, CtorOrder[i], sp[CtorOrder[i]]), sp, i + 1)
Spelt(n) == [fto |-> GoodOf("fto", n), period |-> GoodOf("period", n), thick |-> GoodOf("thick", n), theta |-> GoodOf("theta", n), phi |-> GoodOf("phi", n),
             pol |-> GoodOf("pol", n), psi |-> IF Pick(1..2) = 1 THEN Sp("none", <<>>) ELSE GoodOf("psi", n), wl |-> GoodOf("wl", n), cell |-> GoodCell(n)]
New == /\ phase = "new" /\ phase' = "run" /\ UNCHANGED <<b, nl>>
       /\ \E sp \in {Spelt(nl)} : set' = After(set, sp, 1) /\ Log([act |-> "new", sp |-> sp, set |-> set'])
Step == /\ phase = "run" /\ Len(acts) < Len0 /\ UNCHANGED <<b, nl, phase>>
        /\ \E k \in {Pick(1..10)} :
             CASE k <= 4 -> \E f \in {Pick(Fields)} : \E s \in {GoodOf(f, nl)} : set' = Eff(set, f, s) /\ Log([act |-> "set", field |-> f, sp |-> s, set |-> set'])
               [] k <= 8 -> \E f \in {Pick(BadFields)} : \E s \in {BadOf(f, b)} : UNCHANGED set /\ Log([act |-> "bad", field |-> f, sp |-> s, set |-> set])
               [] k = 9 /\ Pick(1..2) = 1 -> \E o \in {OddOf(Pick(1..4))} : UNCHANGED set /\ Log([act |-> "odd", field |-> o.field, sp |-> o.sp, alt |-> Put(set, o.field, o.sp), set |-> set])
               [] k = 9  -> UNCHANGED set /\ Log([act |-> "badnew", what |-> Pick({"backend", "prec", "pol", "fto"}), set |-> set])
               [] OTHER  -> UNCHANGED set /\ Log([act |-> "solve", set |-> set])
Finish == /\ phase = "run" /\ Len(acts) = Len0 /\ phase' = "done" /\ UNCHANGED <<set, b, nl>>
          /\ Log([act |-> "solve", set |-> set]) /\ PrintT("@SCN " \o ToJson([b |-> b, layers |-> nl, acts |-> acts']))
Next == New \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
(* what is generated as good is understood, what is generated as bad is not *)
Sound == \A i \in DOMAIN acts : LET a == acts[i] IN
           /\ (a.act = "set" /\ a.field # "cell") => Understood(a.field, a.sp)
           /\ (a.act = "bad" /\ a.field \notin {"cell", "prec"}) => ~Understood(a.field, a.sp)
=============================================================================
