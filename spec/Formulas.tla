------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* The coordinate formulas of the library, step by step as it computes     *)
(* them, over any field arithmetic: AlgGroup instantiates them with a      *)
(* small field and magnitudes, FullGroup with the field of secp256k1 and   *)
(* with degrees.                                                           *)
(***************************************************************************)
CONSTANTS Add(_, _), Neg(_, _), MulInt(_, _), Mul(_, _), Weak(_), FInt(_), IsZero(_)

Sqr(a) == Mul(a, a)
Pick(c, a, b) == IF c THEN a ELSE b
J(x, y, z, i) == [x |-> x, y |-> y, z |-> z, inf |-> i]
FromAff(b) == J(b.x, b.y, FInt(1), FALSE)

(* results are [j, rz]: z of the result = z of the first operand * rz *)
R(j, rz) == [j |-> j, rz |-> rz]

Double(a) ==
  IF a.inf THEN R([a EXCEPT !.inf = TRUE], FInt(1))
  ELSE LET rz == MulInt(Weak(a.y), 2)
           z == MulInt(Mul(a.z, a.y), 2)
           t1 == MulInt(Sqr(a.x), 3)
           t2 == Sqr(t1)
           t3 == MulInt(Sqr(a.y), 2)
           t4 == MulInt(Sqr(t3), 2)
           t5 == Mul(t3, a.x)
           x == Add(Neg(MulInt(t5, 4), 4), t2)
           t6 == Add(MulInt(t5, 6), Neg(t2, 1))
           y == Add(Mul(t1, t6), Neg(t4, 2))
       IN R(J(x, y, z, FALSE), rz)

Finish(a, u1, s1, h, i, zf) ==    \* the common end of the variable-time additions
  LET i2 == Sqr(i)
      h2 == Sqr(h)
      h3 == Mul(h, h2)
      t == Mul(u1, h2)
      x == Add(Neg(Add(MulInt(t, 2), h3), 3), i2)
      y == Add(Mul(Add(Neg(x, 5), t), i), Neg(Mul(h3, s1), 1))
  IN R(J(x, y, Mul(a.z, zf), FALSE), zf)

Meet(a, h, i, rest) ==
  IF IsZero(h) THEN (IF IsZero(i) THEN Double(a) ELSE R(J(a.x, FInt(0), FInt(0), TRUE), FInt(0))) ELSE rest

AddVar(a, b) ==
  IF a.inf THEN R(b, FInt(1)) ELSE IF b.inf THEN R(a, FInt(1))
  ELSE LET z22 == Sqr(b.z)
           z12 == Sqr(a.z)
           u1 == Mul(a.x, z22)
           u2 == Mul(b.x, z12)
           s1 == Mul(Mul(a.y, z22), b.z)
           s2 == Mul(Mul(b.y, z12), a.z)
           h == Add(Neg(u1, 1), u2)
           i == Add(Neg(s1, 1), s2)
       IN Meet(a, h, i, Finish(a, u1, s1, h, i, Mul(h, b.z)))

AddGeVar(a, b) ==
  IF a.inf THEN R(FromAff(b), FInt(1))
  ELSE LET z12 == Sqr(a.z)
           u1 == Weak(a.x)
           u2 == Mul(b.x, z12)
           s1 == Weak(a.y)
           s2 == Mul(Mul(b.y, z12), a.z)
           h == Add(Neg(u1, 1), u2)
           i == Add(Neg(s1, 1), s2)
       IN Meet(a, h, i, Finish(a, u1, s1, h, i, h))

(* b stands for (x * w^2, y * w^3), w = 1 / its z *)
AddZinv(a, b, w) ==
  IF a.inf THEN LET w2 == Sqr(w) IN R(J(Mul(b.x, w2), Mul(b.y, Mul(w2, w)), FInt(1), FALSE), FInt(1))
  ELSE LET az == Mul(a.z, w)
           z12 == Sqr(az)
           u1 == Weak(a.x)
           u2 == Mul(b.x, z12)
           s1 == Weak(a.y)
           s2 == Mul(Mul(b.y, z12), az)
           h == Add(Neg(u1, 1), u2)
           i == Add(Neg(s1, 1), s2)
       IN Meet(a, h, i, Finish(a, u1, s1, h, i, h))

(* the constant-time addition; `degenerate` says of (m, rr) when the alternative is taken *)
AddGeWith(a, b, degenerate(_, _)) ==
  LET zz == Sqr(a.z)
      u1 == Weak(a.x)
      u2 == Mul(b.x, zz)
      s1 == Weak(a.y)
      s2 == Mul(Mul(b.y, zz), a.z)
      t == Add(u1, u2)
      m == Add(s1, s2)
      ma0 == Neg(u2, 1)
      rr == Add(Sqr(t), Mul(u1, ma0))
      deg == degenerate(m, rr)
      ra == Pick(deg, MulInt(s1, 2), rr)
      ma == Pick(deg, Add(ma0, u1), m)
      n == Sqr(ma)
      q == Mul(n, t)
      n2 == Pick(deg, m, Sqr(n))
      z == Mul(a.z, ma)
      infinity == IsZero(z) /\ ~a.inf
      q2 == Neg(q, 1)
      t2 == Weak(Add(Sqr(ra), q2))
      t3 == Mul(Add(MulInt(t2, 2), q2), ra)
      y == Weak(Neg(Add(t3, n2), 3))
  IN J(Pick(a.inf, b.x, MulInt(t2, 4)), Pick(a.inf, b.y, MulInt(y, 4)), Pick(a.inf, FInt(1), MulInt(z, 2)), infinity)
Degenerate(m, rr) == IsZero(m) /\ IsZero(rr)
Never(m, rr) == FALSE
Always(m, rr) == TRUE
AddGe(a, b) == AddGeWith(a, b, Degenerate)

(* to affine coordinates, the inverse of the denominator given *)
WithZinv(a, zi) == LET z2 == Sqr(zi)
                       z3 == Mul(z2, zi)
                   IN [x |-> Mul(a.x, z2), y |-> Mul(a.y, z3)]

NegJ(a) == [a EXCEPT !.y = Neg(Weak(a.y), 1)]
Rescale(a, s) == LET zz == Sqr(s)
                 IN [a EXCEPT !.x = Mul(a.x, zz), !.y = Mul(Mul(a.y, zz), s), !.z = Mul(a.z, s)]
=============================================================================
