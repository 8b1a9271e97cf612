------------------------------ MODULE Amplitude ------------------------------
(* What the complex amplitudes of a result mean.

   Normal form: exp(+i omega t), exp(-i k r), n - ik; the incident wave has
   unit electric amplitude; s is the electric amplitude along s, p is
   i * (refractive index of the incidence medium) * (magnetic amplitude over
   the incident magnetic one); s and p axes of an order follow the line of its
   in-plane wave vector, facing +x.

   Report is how a backend and formulation writes a normal-form number down,
   Plain reads it back.  part: "te", "tm" incidence; f: "Rs", "Rp", "Ts", "Tp";
   split: conical or 2D solve; g: +1 or -1, whether an order's axes face the
   same side as those of the incident wave; nt, nb: media (complex). *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
LOCAL INSTANCE Cplx
Far(f) == f \in {"Ts", "Tp"}
Pside(f) == f \in {"Rp", "Tp"}
INx(nt) == CMul(CI, nt)
Report(b, split, part, f, g, nt, nb, z) ==
  CASE b \in {0, 1} /\ (split \/ ~Pside(f)) -> z
    [] b \in {0, 1} -> CDiv(z, INx(nt))                                          \* planar TM: magnetic ratio
    [] ~split -> CScale(g, CConj(IF Pside(f) THEN CDiv(z, INx(nt)) ELSE z))
    [] OTHER -> LET u == IF part = "tm" THEN CNeg(z) ELSE z                      \* TM incidence faces the other side
                IN CScale(g, CConj(IF Pside(f) THEN CDiv(CMul(CI, u), IF Far(f) THEN nb ELSE nt) ELSE u))
Plain(b, split, part, f, g, nt, nb, w) ==
  CASE b \in {0, 1} /\ (split \/ ~Pside(f)) -> w
    [] b \in {0, 1} -> CMul(w, INx(nt))
    [] ~split -> LET v == CConj(CScale(g, w)) IN IF Pside(f) THEN CMul(v, INx(nt)) ELSE v
    [] OTHER -> LET v == CConj(CScale(g, w))
                    u == IF Pside(f) THEN CMul(CMul(v, IF Far(f) THEN nb ELSE nt), C(0, -1)) ELSE v
                IN IF part = "tm" THEN CNeg(u) ELSE u
(* a pattern moved by kx of w columns to the right and ky of h rows upwards *)
Turn(m, k, n) == RMul(RMul(2, RPi), RDiv((m * k) % n, n))
Moved(o, kx, w, ky, h, z) == CMul(z, CCis(RAdd(Turn(o[2], kx, w), Turn(o[1], ky, h))))
=============================================================================
