----------------------------- MODULE OrdersModel ----------------------------
(* The order bookkeeping behind C02, model checked on its own: tilting,
   mirroring and changing the substrate move the set of propagating orders the
   way the grating equation says, and positions in the result array are a
   bijection with the retained orders. *)
EXTENDS Device
VARIABLE prev
Grid == [ntop : {100, 150}, nbot : {100000, 145000, 350000}, sin : {-16, 0, 7}, phi : {Phi(5, 0), Phi(4, 3), Phi(0, 5), Phi(-3, 4)},
         qx : {6, 13, 31}, qy : {11, 27}, shape : {Sh(1, 1, 1, 3, 0), Sh(1, 1, 1, 2, 1), Sh(1, 1, 1, 0, 2)}]
OInit == cfg \in Grid /\ step = "start" /\ prev = cfg
Mirror == step' = "mirror" /\ prev' = cfg /\ cfg' = [cfg EXCEPT !.sin = -cfg.sin]
Turn == step' = "turn" /\ prev' = cfg /\ cfg' = [cfg EXCEPT !.phi.c = -cfg.phi.s, !.phi.s = cfg.phi.c, !.qx = cfg.qy, !.qy = cfg.qx,
                                                 !.shape.fx = cfg.shape.fy, !.shape.fy = cfg.shape.fx]
Denser == \E n \in {145000, 350000} : n > cfg.nbot /\ step' = "denser" /\ prev' = cfg /\ cfg' = [cfg EXCEPT !.nbot = n]
Finer == \E q \in {13, 31} : q > cfg.qx /\ step' = "finer" /\ prev' = cfg /\ cfg' = [cfg EXCEPT !.qx = q]
ONext == step = "start" /\ (Mirror \/ Turn \/ Denser \/ Finer)
OSpec == OInit /\ [][ONext]_<<cfg, step, prev>>
TopSet(c) == {o \in Orders(c) : PropTop(c, o)}
BotSet(c) == {o \in Orders(c) : PropBot(c, o)}
ZeroOrder == <<0, 0>> \in TopSet(cfg)
Bijection == {Pos(cfg, o) : o \in Orders(cfg)} = 1..(Width(cfg) * Height(cfg))
RowMajor == \A o, p \in Orders(cfg) : Pos(cfg, o) < Pos(cfg, p) <=> (o[1] < p[1] \/ (o[1] = p[1] /\ o[2] < p[2]))
Convex(S) == \A o, p \in S : o[1] = p[1] => \A m \in o[2]..p[2] : <<o[1], m>> \in S
ConvexRows == Convex(TopSet(cfg)) /\ Convex(BotSet(cfg))
Neg(S) == {<<-o[1], -o[2]>> : o \in S}
RotO(S) == {<<o[2], -o[1]>> : o \in S}
Moves == CASE step = "mirror" -> TopSet(cfg) = Neg(TopSet(prev)) /\ BotSet(cfg) = Neg(BotSet(prev))
           [] step = "turn"   -> TopSet(cfg) = RotO(TopSet(prev)) /\ BotSet(cfg) = RotO(BotSet(prev))
           [] step = "denser" -> BotSet(prev) \subseteq BotSet(cfg) /\ TopSet(cfg) = TopSet(prev)
           [] step = "finer"  -> \A o \in TopSet(cfg) : cfg.sin = 0 /\ o[2] # 0 => o \in TopSet(prev)
           [] OTHER -> TRUE
=============================================================================
