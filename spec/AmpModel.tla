------------------------------ MODULE AmpModel ------------------------------
(* Exhaustive on small numbers: reading back what any backend and formulation
   writes gives the normal form; writing keeps what efficiencies are made of;
   moving a pattern is a group action that closes after a period; the exact
   film amplitudes square to the exact film efficiencies and split alike. *)
EXTENDS Integers, Sequences, BigRat, Cplx
A == INSTANCE Amplitude
S == INSTANCE Slab
VARIABLES b, split, part, f, g, nt, nb, z, mv, film
vars == <<b, split, part, f, g, nt, nb, z, mv, film>>
Zs == {C(1, 0), C("3/5", "-4/5"), C(-2, "1/3"), C(0, 0)}
Films == [pol : {"te", "tm"}, code : {150000, 200020, 30250}, t : {"1/10", "7/20"}, bot : {100000, 145000, 150020}, kt2 : {"0", "9/25"}]
NoFilm == [pol |-> "none", code |-> 0, t |-> "0", bot |-> 0, kt2 |-> "0"]
Writing == /\ b \in 0..2 /\ split \in BOOLEAN /\ part \in {"te", "tm"} /\ f \in {"Rs", "Rp", "Ts", "Tp"} /\ g \in {-1, 1}
           /\ nt \in {C(1, 0), C("13/10", 0)} /\ nb \in {C("3/2", 0), C("3/2", "-1/5")} /\ z \in Zs /\ film = NoFilm
Filming == /\ b = 0 /\ split = FALSE /\ part = "te" /\ f = "Rs" /\ g = 1 /\ nt = C(1, 0) /\ nb = C("3/2", 0) /\ z = C(1, 0) /\ film \in Films
Init == mv = <<0, 0>> /\ (Writing \/ Filming)
Next == /\ film = NoFilm /\ b = 0 /\ split /\ part = "te" /\ f = "Rs" /\ g = 1
        /\ \E k \in 1..3, r \in 1..2 : mv' = <<(mv[1] + k) % 4, (mv[2] + r) % 3>>
        /\ UNCHANGED <<b, split, part, f, g, nt, nb, z, film>>
Spec == Init /\ [][Next]_vars
Inverse == CEq(A!Plain(b, split, part, f, g, nt, nb, A!Report(b, split, part, f, g, nt, nb, z)), z)
(* backends agree on the squared electric amplitude of s, and of p up to the media *)
Size == LET w == CAbs2(A!Report(b, split, part, f, g, nt, nb, z))
        IN IF ~A!Pside(f) \/ (b < 2 /\ split) THEN REq(w, CAbs2(z))
           ELSE REq(RMul(w, CAbs2(IF b = 2 /\ split /\ A!Far(f) THEN nb ELSE nt)), CAbs2(z))
Near(u, v) == CClose(u, v, "1e-30")
Group == LET o == <<2, -3>>
             once == A!Moved(o, mv[1], 4, mv[2], 3, z)
         IN /\ REq(CAbs2(z), 0) \/ RClose(CAbs2(once), CAbs2(z), "1e-30")
            /\ \A k \in 0..3 : Near(A!Moved(o, k, 4, 0, 3, once), A!Moved(o, (mv[1] + k) % 4, 4, mv[2], 3, z))
            /\ Near(A!Moved(<<0, 0>>, mv[1], 4, mv[2], 3, z), z)
FilmAmplitude ==
  (film # NoFilm /\ mv = <<0, 0>>) => LET top == 130000
               codes == <<film.code>>
               ts == <<film.t>>
               a == S!Amp(film.pol, top, codes, ts, film.bot, film.kt2)
               e == S!RT(film.pol, top, codes, ts, film.bot, film.kt2)
               y0 == S!Adm(film.pol, top, film.kt2)
               ys == S!Adm(film.pol, film.bot, film.kt2)
           IN /\ RClose(CAbs2(a.r), e.R, "1e-25")
              /\ RClose(RDiv(RMul(CAbs2(a.t), ys[1]), y0[1]), e.T, "1e-25")
              /\ LET h == S!Amp(film.pol, top, <<film.code, film.code>>, <<"1/25", RSub(film.t, "1/25")>>, film.bot, film.kt2)
                 IN CClose(h.r, a.r, "1e-25") /\ CClose(h.t, a.t, "1e-25")
=============================================================================
