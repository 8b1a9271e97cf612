---------------------------- MODULE SettingsModel ----------------------------
(* Exhaustive over a menu of spellings: an implementation in meent's style
   (check, convert, store; derived polarisation angle kept next to the share)
   next to Settings. *)
EXTENDS Settings
VARIABLES impl, last
Hows == Scalars \cup Seqs \cup {"none", "str", "dict", "complex"}
Vals == {<<>>, <<"1">>, <<"1/2">>, <<"2", "1">>, <<"3", "2", "1">>, <<"7">>, <<"-1">>, <<"0">>}
Fields == {"fto", "period", "thick", "theta", "phi", "pol", "psi", "wl"}
Fits(s) == CASE s.how \in Scalars \cup {"complex"} -> Len(s.v) = 1 [] s.how \in Seqs -> Len(s.v) >= 1 [] OTHER -> s.v = <<>>
Menu == {s \in {Sp(h, v) : h \in Hows, v \in Vals} : Fits(s)}
Start == [fto |-> <<"0", "0">>, period |-> <<"1", "1">>, thick |-> <<"0">>, theta |-> "0", phi |-> "none", pol |-> "0", wl |-> "1"]
Init == set = Start /\ impl = Start @@ [psi |-> "90"] /\ last = [f |-> "none"]
(* the implementation: convert first, store only what was converted *)
Store(f, s) ==
  IF ~Understood(f, s) THEN impl' = impl
  ELSE CASE f = "psi" -> impl' = IF s.how = "none" THEN impl ELSE [impl EXCEPT !.psi = RNorm(s.v[1]), !.pol = Share(s.v[1])]
         [] f = "pol" -> impl' = [impl EXCEPT !.pol = RNorm(s.v[1]), !.psi = RMul(90, RSub(1, s.v[1]))]
         [] OTHER     -> impl' = [impl EXCEPT ![f] = Normal(f, s)]
Next == \E f \in Fields, s \in Menu : (Assign(f, s) \/ Refuse(f, s)) /\ Store(f, s) /\ last' = [f |-> f, s |-> s]
(* one assignment from the start, and any second one *)
Depth == TLCGet("level") <= 2
Spec == Init /\ [][Next]_<<set, impl, last>>
Same == \A f \in DOMAIN set : set[f] = impl[f]
Consistent == RSub(impl.pol, Share(impl.psi)) = "0"
WellFormed == Len(set.fto) = 2 /\ Len(set.period) = 2 /\ Len(set.thick) >= 1
Stable == \A f \in DOMAIN set : LET c == Canon(f, set[f])
                                IN f # "pol" => Understood(f, c) /\ Put(set, f, c) = set
Took == (last.f # "none" /\ Understood(last.f, last.s) /\ last.s.how # "none") => set[Slot(last.f)] = Normal(last.f, last.s)
=============================================================================
