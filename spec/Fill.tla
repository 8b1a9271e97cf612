-------------------------------- MODULE Fill ---------------------------------
(* Materials and id maps.  A material "ship" is one of meent's own tables; C11 and C16 decide
   what a lookup of it gives, so the lookup is recorded and taken from there.  A material is a value (index code of Device: n*1000*100 + k*100),
   a table of a library, or a Sellmeier fit; Index is its n - ik at wave length w. *)
EXTENDS Nk, Dispersion
ValueOf(code) == C(RDiv(code \div 1000, 100), RNeg(RDiv(code % 1000, 100)))
Index(m, lib, w, looked) ==
  CASE m.by = "value" -> ValueOf(m.v)
    [] m.by = "name" -> C(Value(lib[m.t], w, "n"), IF m.real THEN 0 ELSE RNeg(Value(lib[m.t], w, "k")))
    [] m.by = "ship" -> looked[m.s]
    [] m.by = "fit" -> C(RSqrt(SellmeierSq(m.form, m.cs, w)), 0)
(* the filled map: every position on its own *)
Filled(ids, idx) == [i \in DOMAIN ids |-> idx[ids[i] + 1]]
=============================================================================
