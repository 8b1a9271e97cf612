------------------------------- MODULE GenDisp -------------------------------
(* Fitted materials: a fit is written down (as a file in a library, or as a
   specification passed directly), possibly badly, and then asked. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Backends, Kinds, MaxAsk
VARIABLES fits, asks, ph
gvars == <<fits, asks, ph>>
Pick(S) == RandomElement(S)
Cut(s, n) == [i \in 1..n |-> s[i]]
Strengths == {"0.6961663", "0.4079426", "1.1", "0", "2.25e0"}
Sellmeier(f) == [kind |-> "sellmeier", form |-> f, n |-> Pick(0..3),
  cs |-> <<Pick({"0", "0.25", "1.3"}), Pick(Strengths), IF f = 1 THEN Pick({"6.84043e-08", "1.5e-7"}) ELSE Pick({"4.7e-15", "2.2e-14"}), Pick(Strengths), IF f = 1 THEN "1.162414e-07" ELSE "1.35e-14",
           Pick({"0.8974794", "0.2"}), IF f = 1 THEN "9.896161e-06" ELSE "9.8e-11">>]
Osc(S) == [i \in S |-> [f |-> Pick({"0.05", "0.3", "0.011"}), g |-> Pick({"0.07", "0.3", "0.9"}), c |-> Pick({"0.218", "2.885", "6.01"}), s |-> Pick({"0.742", "0.349", "0.05"})]]
Ev(o) == [kind |-> "bbev", form |-> 0, n |-> Pick(0..2), cs |-> <<Pick({"9.03", "5.2"}), Pick({"0.77", "0.1"}), Pick({"0.05", "0.3"}), o[1].f, o[1].g, o[1].c, o[1].s, o[2].f, o[2].g, o[2].c, o[2].s>>]
OscCm(S) == [i \in S |-> [f |-> Pick({"1e5", "3.2e5"}), g |-> Pick({"10", "44"}), c |-> Pick({"300", "1210"}), s |-> Pick({"20", "63"})]]
Cm(o) == [kind |-> "bbcm", form |-> 0, n |-> Pick(0..2), cs |-> <<Pick({"2.04", "1.5"}), o[1].f, o[1].g, o[1].s, o[1].c, o[2].f, o[2].g, o[2].s, o[2].c>>]
Gr(t) == [kind |-> "sheet", form |-> 0, n |-> 0, cs |-> <<Pick({"0.1", "0.2", "0.4", "0.65"}), Pick({"500", "10000", "31000"}), t, Pick({"3.4e-10", "1e-9"})>>]
Bad(k) == [kind |-> "bad", form |-> 0, n |-> 0, cs |-> <<k>>]
Bads == {"formula 3", "formula", "model nonesuch", "missing range", "bad number", "odd poles", "no coefficients"}
BadCond == {"zero", "negative", "infinite", "nan", "text", "none", "pair"}
Roll(S) == LET k == Pick(S)
           IN CASE k = "sellmeier" -> Sellmeier(Pick({1, 2}))
                [] k = "bbev" -> (CHOOSE v \in {Ev(o) : o \in {Osc(1..2)}} : TRUE)
                [] k = "bbcm" -> (CHOOSE v \in {Cm(o) : o \in {OscCm(1..2)}} : TRUE)
                [] k = "sheet" -> Gr(Pick({"150", "300", "450"}))
                [] k = "cond" -> [kind |-> "cond", form |-> Pick(1..4), n |-> 0, cs |-> <<Pick(BadCond)>>]
                [] k = "shipped" -> [kind |-> "shipped", form |-> Pick(0..999), n |-> 0, cs |-> <<>>]
                [] OTHER -> Bad(Pick(Bads))
Used(f) == [f EXCEPT !.cs = CASE f.kind = "sellmeier" -> Cut(@, 2 * f.n + 1) [] f.kind = "bbev" -> Cut(@, 4 * f.n + 3) [] f.kind = "bbcm" -> Cut(@, 4 * f.n + 1) [] OTHER -> @]
Set == /\ ph = 0 /\ \E f \in {Roll(Kinds)} : fits' = Used(f) /\ UNCHANGED asks /\ ph' = 1
Waves(k) == CASE k = "sellmeier" -> {"2.5e-07", "4.1e-07", "6.328e-07", "1.55e-06", "3.3e-06"}
              [] k = "bbcm" -> {"2.5e-07", "1.55e-06", "8e-06", "1.1e-05", "3.05e-05"}
              [] OTHER -> {"2.5e-07", "4.1e-07", "6.328e-07", "1.55e-06", "4e-06", "1.03e-05", "3.05e-05"}
Three(S) == <<Pick(S), Pick(S), Pick(S)>>
Low(k) == IF k = "sellmeier" THEN "3e-07" ELSE "3.5e-07"
Ask == /\ ph = 1 /\ Len(asks) < MaxAsk /\ UNCHANGED <<fits, ph>>
       /\ \E q \in {[b |-> Pick(Backends), by |-> Pick({"name", "name", "spec"}), case |-> Pick({"upper", "lower", "file"}), real |-> Pick({TRUE, FALSE, FALSE}), form |-> Pick({"scalar", "array", "own"}),
                     ws |-> Three(Waves(fits.kind)), badw |-> Pick({"", "", "", "0", "-1e-6", "nan"})]} :
            asks' = Append(asks, [q EXCEPT !.ws = IF q.form = "scalar" THEN <<@[1]>> ELSE @, !.real = q.real /\ q.by = "name" /\ fits.kind # "sheet", !.badw = IF fits.kind = "sheet" THEN @ ELSE ""])
Done == /\ ph = 1 /\ Len(asks) = MaxAsk /\ ph' = 2 /\ UNCHANGED <<fits, asks>>
        /\ PrintT("@SCN " \o ToJson([fit |-> fits, asks |-> asks, lo |-> Low(fits.kind), hi |-> "2e-05"]))
Next == Set \/ Ask \/ Done
Spec == fits = [kind |-> "none"] /\ asks = <<>> /\ ph = 0 /\ [][Next]_gvars
=============================================================================
