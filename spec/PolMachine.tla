----------------------------- MODULE PolMachine ------------------------------
(* The polarisation setting of a solver object: two spellings of one quantity.
   pol is the TM fraction in hundredths (share: ten-thousandths), psi the angle in degrees (mpsi: thousandths);
   psi = 90 (1 - pol).  The spelling assigned last decides. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
None == "none"
(* state: the angle in degrees, exactly *)
OfPol(v) == RMul("9/10", RSub(100, v))
OfPsi(v) == RNorm(v)
(* construction: psi, where given, overrides pol *)
New(pol, psi) == IF psi # None THEN OfPsi(psi) ELSE IF pol # None THEN OfPol(pol) ELSE OfPol(0)
Apply(st, a) == CASE a.by = "pol" -> OfPol(a.v) [] a.by = "share" -> OfPol(RDiv(a.v, 100)) [] a.by = "mpsi" -> OfPsi(RDiv(a.v, 1000)) [] OTHER -> OfPsi(a.v)
RECURSIVE Run(_, _)
Run(st, as) == IF as = <<>> THEN st ELSE Run(Apply(st, as[1]), SubSeq(as, 2, Len(as)))
(* what the object then reports *)
PolOf(st) == RSub(1, RDiv(st, 90))
PsiRad(st) == RMul(RPi, RDiv(st, 180))
PureTE(st) == REq(st, 90)
PureTM(st) == REq(st, 0)
=============================================================================
