------------------------------- MODULE EcPure -------------------------------
(***************************************************************************)
(* The group law of a curve y^2 = x^3 + b over F_m, by chords and          *)
(* tangents. A point is <<>> (infinity) or <<x, y>>.                       *)
(***************************************************************************)
EXTENDS BigNat

Chord(p, q, lam, m) ==
  LET x == NatSubMod(NatSubMod(NatMulMod(lam, lam, m), p[1], m), q[1], m)
  IN <<x, NatSubMod(NatMulMod(lam, NatSubMod(p[1], x, m), m), p[2], m)>>

PureEcAdd(p, q, m) ==
  IF p = <<>> THEN q
  ELSE IF q = <<>> THEN p
  ELSE IF p[1] # q[1]
       THEN Chord(p, q, NatMulMod(NatSubMod(q[2], p[2], m),
                                  NatInvMod(NatSubMod(q[1], p[1], m), m), m), m)
  ELSE IF p[2] # q[2] \/ NatIsZero(p[2]) THEN <<>>
  ELSE Chord(p, p, NatMulMod(NatMulMod(NatMulMod(p[1], p[1], m), <<3>>, m),
                             NatInvMod(NatMulMod(p[2], <<2>>, m), m), m), m)

(* k * p by double and add; k is an octet string of any length. *)
PureEcMul(k, p, m) ==
  FoldLeft(LAMBDA acc, b : LET d == PureEcAdd(acc, acc, m)
                           IN IF b = 1 THEN PureEcAdd(d, p, m) ELSE d,
           <<>>, NatBits(Strip(k)))
=============================================================================
