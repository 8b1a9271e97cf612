------------------------------- MODULE GenFill -------------------------------
(* A library, then a series of fills on one or two solver objects. *)
EXTENDS Nk, Json
CONSTANTS Backends, MaxFill
VARIABLES lib, fills, ph
gvars == <<lib, fills, ph>>
Pick(S) == RandomElement(S)
Rough(S) == [start |-> Pick({300, 800}), d |-> [i \in S |-> Pick({1, 40, 400})], n |-> [i \in S |-> Pick({5000, 13000, 24321, 0})], k |-> [i \in S |-> Pick({0, 3000, 107424})]]
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
Table(r, name) == [name |-> name, form |-> "txt", sub |-> 0, src |-> "", cond |-> "", note |-> "", extra |-> 0, exp |-> 0, ex |-> -9, rows |-> [i \in 1..4 |-> [w |-> r.start + Sum(r.d, i - 1), n |-> r.n[i], k |-> r.k[i]]]]
Lay == /\ ph = 0 /\ \E r \in {Rough(1..4)} : lib' = Append(lib, Table(r, IF lib = <<>> THEN "Au_x" ELSE "sIo2-E"))
       /\ UNCHANGED fills /\ ph' = IF Len(lib) = 1 THEN 1 ELSE 0
Skip == ph = 0 /\ lib = <<>> /\ ph' = 1 /\ UNCHANGED <<lib, fills>>
Mat(k) == CASE k = "value" -> [by |-> k, v |-> Pick({100000, 145000, 350000, 20300, 0, 200000, 300000}), as |-> Pick({"number", "number", "int"})]
            [] k = "name" -> [by |-> k, t |-> Pick(1..2), real |-> Pick({TRUE, FALSE, FALSE}), case |-> Pick({"upper", "lower", "file"})]
            [] k = "ship" -> [by |-> k, s |-> Pick(1..3)]
            [] OTHER -> [by |-> "fit", form |-> Pick({1, 2}), cs |-> <<Pick({"0", "1.2"}), Pick({"0.696", "1.1"}), Pick({"1.1e-14", "2e-15"})>>]
Want(S, ship) == [o |-> Pick(1..2), L |-> Pick(1..3), H |-> Pick(1..3), W |-> Pick(1..4), m |-> Pick(1..4), mats |-> [i \in 1..4 |-> Mat(Pick(IF ship THEN {"value", "ship", "fit"} ELSE {"value", "name", "fit"}))], ids |-> [i \in S |-> Pick(0..3)],
            w |-> Pick({310500, 310700, 512125, 801000, 801300, 1000000, 1210125}), map |-> Pick({"int", "float", "own"}), single |-> Pick({FALSE, FALSE, TRUE})]
(* the same fill once more, at a wavelength hardly different, perhaps on the other object or with other numbers *)
Next0(f, q) == [f EXCEPT !.w = @ + Pick({-300, 200, 450}), !.o = IF Pick(1..4) = 1 THEN 3 - @ ELSE @, !.map = q.map, !.single = q.single,
                          !.ids = [i \in DOMAIN f.ids |-> q.ids[i] % Len(f.mats)]]
Fill2 == /\ ph = 1 /\ fills # <<>> /\ Len(fills) < MaxFill /\ UNCHANGED <<lib, ph>>
         /\ \E q \in {Want(1..36, lib = <<>>)} : \E f \in {Next0(fills[Len(fills)], q)} : fills' = Append(fills, f)
Fill1 == /\ ph = 1 /\ Len(fills) < MaxFill /\ UNCHANGED <<lib, ph>>
         /\ \E q \in {Want(1..36, lib = <<>>)} :
              fills' = Append(fills, [o |-> q.o, shape |-> <<q.L, q.H, q.W>>, mats |-> [i \in 1..q.m |-> q.mats[i]], ids |-> [i \in 1..(q.L * q.H * q.W) |-> q.ids[i] % q.m], w |-> q.w, map |-> q.map, single |-> q.single])
Done == /\ ph = 1 /\ Len(fills) = MaxFill /\ ph' = 2 /\ UNCHANGED <<lib, fills>>
        /\ \E b \in {Pick(Backends)} : PrintT("@SCN " \o ToJson([b |-> b, lib |-> lib, fills |-> fills]))
Next == Lay \/ Skip \/ Fill1 \/ Fill2 \/ Done
Spec == lib = <<>> /\ fills = <<>> /\ ph = 0 /\ [][Next]_gvars
=============================================================================
