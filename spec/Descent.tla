------------------------------- MODULE Descent -------------------------------
(* Derivatives and gradient steps.
   A stencil v = <<f(-2h), f(-h), f(h), f(2h)>> gives two difference quotients
   and their extrapolation; the quotients agreeing says that h resolves f.
   One step of the optimiser: velocity u' = m u + g, setting p' = p - r u'. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE BigRat
Near(v, h) == RDiv(RSub(v[3], v[2]), RMul(2, h))
Far(v, h) == RDiv(RSub(v[4], v[1]), RMul(4, h))
Slope(v, h) == RDiv(RSub(RMul(4, Near(v, h)), Far(v, h)), 3)
Resolved(v, h, tol) == RClose(Near(v, h), Far(v, h), tol)
Velocity(m, u, g) == RAdd(RMul(m, u), g)
Moved(r, p, u) == RSub(p, RMul(r, u))
=============================================================================
