-------------------------------- MODULE GenNk --------------------------------
(* A library of tables is laid out, file by file, and then asked. *)
EXTENDS Nk, Json
CONSTANTS Backends, MaxTab, MaxAsk, Singles, Shipped
VARIABLES lib, asks, ph
gvars == <<lib, asks, ph>>
Pick(S) == RandomElement(S)
Names == <<"Au_x", "sIo2-E", "[Gel][Jw]", "TiN_290c", "b7">>
(* the shape of a file: random steps between rows, then the rows themselves *)
Rough(S) == [m |-> Pick(2..7), start |-> Pick({90, 400, 2100}), d |-> [i \in S |-> Pick({1, 2, 7, 50, 400})], n |-> [i \in S |-> Pick({500, 13000, 14999, 15000, 24321, 61000})],
             k |-> [i \in S |-> Pick({0, 0, 1, 3000, 45000, 107424})], ex |-> Pick({-10, -9, -8, -7}), form |-> Pick({"txt", "txt", "mat"}), sub |-> Pick({0, 1, 2}),
             src |-> Pick({"", "A. Nonymous, J. Opt. 1 - 2: 3 (1999)", "x"}), cond |-> Pick({"", "20 degC: film"}), note |-> Pick({"", "", "model sampled-one", "tabulated nk"}), extra |-> Pick({0, 0, 1}), exp |-> Pick({0, 1, 2})]
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
Table(r, name) == [name |-> name, form |-> r.form, sub |-> r.sub, src |-> r.src, cond |-> r.cond, note |-> r.note, extra |-> r.extra, exp |-> r.exp, ex |-> r.ex,
                   rows |-> [i \in 1..r.m |-> [w |-> r.start + Sum(r.d, i - 1), n |-> r.n[i], k |-> r.k[i]]]]
Lay == /\ ph = 0 /\ Len(lib) < MaxTab
       /\ \E r \in {Rough(1..7)} : lib' = Append(lib, Table(r, Names[Len(lib) + 1]))
       /\ UNCHANGED asks
       /\ ph' = Pick({0, 0, 1})
Full == ph = 0 /\ Len(lib) = MaxTab /\ ph' = 1 /\ UNCHANGED <<lib, asks>>
(* where to look *)
Spot(t, u) == LET m == Len(t.rows) i == 1 + (u.i % m) j == 1 + (u.i % (m - 1))
              IN CASE u.at = "row" -> 1000 * t.rows[i].w
                   [] u.at = "between" -> 1000 * t.rows[j].w + 125 * u.p * (t.rows[j + 1].w - t.rows[j].w)
                   [] u.at = "near" -> 1000 * t.rows[i].w + u.e
                   [] u.at = "below" -> 1000 * t.rows[1].w - u.o
                   [] OTHER -> 1000 * t.rows[m].w + u.o
Want(S) == [t |-> Pick(1..Len(lib)), b |-> Pick(Backends), case |-> Pick({"upper", "lower", "swap", "file"}), real |-> Pick({TRUE, FALSE, FALSE}), single |-> Pick(Singles),
            form |-> Pick({"scalar", "scalar", "array", "grid", "own"}), far |-> Pick({0, 0, 0, 0, 0, 0, 0, 3, 6}), unknown |-> Pick(1..12) = 1,
            u |-> [s \in S |-> [at |-> Pick({"row", "between", "between", "between", "near", "below", "above"}), i |-> Pick(0..41), p |-> Pick(1..7), e |-> Pick({-1, 1}), o |-> Pick({1, 1000, 30000})]]]
Ask == /\ ph = 1 /\ Len(asks) < MaxAsk
       /\ \E q \in {Want(1..4)} :
            asks' = Append(asks, [t |-> q.t, b |-> q.b, case |-> q.case, real |-> q.real, single |-> q.single, form |-> q.form, far |-> q.far, unknown |-> q.unknown,
                                  ws |-> [s \in 1..(IF q.form = "scalar" THEN 1 ELSE 4) |-> Spot(lib[q.t], q.u[s])]])
       /\ UNCHANGED <<lib, ph>>
Done == /\ ph = 1 /\ Len(asks) = MaxAsk /\ ph' = 2 /\ UNCHANGED <<lib, asks>>
        /\ PrintT("@SCN " \o ToJson([lib |-> lib, asks |-> asks]))
(* the tables that come with meent: which one, where, how asked *)
Ship == /\ ph = 0 /\ lib = <<>> /\ Shipped /\ Len(asks) < MaxAsk /\ UNCHANGED <<lib, ph>>
        /\ asks' = Append(asks, [t |-> Pick(0..9999), r |-> Pick(0..9999), p |-> Pick(0..8), at |-> Pick({"in", "in", "in", "below", "above"}), b |-> Pick(Backends), case |-> Pick({"upper", "lower", "swap", "file"}),
                                 real |-> Pick({TRUE, FALSE, FALSE})])
ShipDone == /\ ph = 0 /\ Shipped /\ Len(asks) = MaxAsk /\ ph' = 2 /\ UNCHANGED <<lib, asks>>
            /\ PrintT("@SCN " \o ToJson([shipped |-> asks]))
Next == (~Shipped /\ (Lay \/ Full \/ Ask \/ Done)) \/ Ship \/ ShipDone
Spec == lib = <<>> /\ asks = <<>> /\ ph = 0 /\ [][Next]_gvars
=============================================================================
