---------------------------- MODULE PresentModel ----------------------------
(* Exhaustive: every walk of presentation steps keeps the physics of the
   orders it started with, keeps the pattern free of y, and embeds the
   original orders injectively; the formulation only ever becomes more
   general. *)
EXTENDS Present, SequencesExt
VARIABLES cur, n
Base(phi, sin, pol, f) == [b |-> 0, kind |-> "1d", shape |-> Sh(1, 1, 2, f, 0), phi |-> phi, sin |-> sin, ntop |-> 130, nbot |-> 150000, qx |-> 9,
  qy |-> 7, lam |-> "1", pol |-> pol, ft |-> 0, cplx |-> FALSE, thick |-> <<700>>, mats |-> <<100000, 200000, 200000>>, style |-> <<"free">>,
  cell |-> << << <<100000, 200000>> >> >>]
Bases == {Base(p, s, q, f) : p \in {NoPhi, Phi(4, 3), Phi(0, 5)}, s \in {0, 11}, q \in {PolTE, PolTM, PolMix}, f \in {0, 1, 2}}
Rank(r) == CASE r = "1d" -> 0 [] r = "conical" -> 1 [] r = "2d" -> 2
MInit == cfg \in Bases /\ step = 0 /\ cur = cfg /\ n = 0
MNext == /\ n < 4 /\ n' = n + 1 /\ UNCHANGED <<cfg, step>>
         /\ \/ cur' = GiveAzimuth(cur)
            \/ \E k \in {2, 3} : k * cur.shape.rows <= 6 /\ cur' = RepeatRows(cur, k)
            \/ cur.shape.fy < 2 /\ cur' = AddYOrders(cur, 1)
            \/ \E q \in {5, 29} : cur' = OtherPeriodY(cur, q)
MSpec == MInit /\ [][MNext]_<<cfg, step, cur, n>>
SamePhysics == \A mx \in (-cfg.shape.fx)..cfg.shape.fx :
  LET o == <<0, mx>> IN REq(Kt2(cfg, 0, mx), Kt2(cur, 0, mx)) /\ PropTop(cfg, o) = PropTop(cur, o) /\ PropBot(cfg, o) = PropBot(cur, o)
StillUniform == Uniform(cur) /\ Homogeneous(cur.cell[1]) = Homogeneous(cfg.cell[1])
MoreGeneral == Rank(Route(cur)) >= Rank(Route(cfg))
Injective == Cardinality({Pos(cur, o) : o \in Orders(cfg)}) = Cardinality(Orders(cfg)) /\ Orders(cfg) \subseteq Orders(cur)
Centre == Pos(cur, <<0, 0>>) = (Width(cur) * Height(cur) + 1) \div 2
=============================================================================
