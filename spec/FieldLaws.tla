------------------------------ MODULE FieldLaws -----------------------------
(* What a field solution satisfies, order by order.  a is the amplitude of one
   plane wave component <<Ex, Ey, Ez, Hx, Hy, Hz>> (complex numbers) in one
   plane, fields varying as exp(-i k.r), H in units where a plane wave in
   vacuum has |H| = |E|; wave numbers are in units of the vacuum one. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
LOCAL INSTANCE Cplx
S == INSTANCE Slab
(* power flow towards the substrate *)
Sz(a) == RSub(CRe(CMul(a[2], CConj(a[4]))), CRe(CMul(a[1], CConj(a[5]))))
Faraday(a, kx, ky) == CSub(CScale(kx, a[2]), CScale(ky, a[1]))
Ampere(a, kx, ky) == CSub(CScale(ky, a[4]), CScale(kx, a[5]))
Tangential == {1, 2, 4, 5}
(* equidistant planes h (wavelengths) apart inside a homogeneous medium:
   a(z-h) + a(z+h) = 2 cos(2 pi kz h) a(z) for every component *)
TwoCos(code, kt2, h) == CScale(2, S!CosSin(CScale(RMul(RMul(2, RPi), h), S!Kz(code, kt2))).c)
WaveGap(u, v, w, tc) == CAbs2(CSub(CAdd(u, w), CMul(tc, v)))
WaveSize(u, v, w, tc) == RAdd(1, RMul(CAbs2(tc), CAbs2(v)))
=============================================================================
