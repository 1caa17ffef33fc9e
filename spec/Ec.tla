--------------------------------- MODULE Ec ---------------------------------
(* The group law as TLC evaluates it: in Java, see BigNat and MCBigNat. *)
EXTENDS EcPure

EcAdd(p, q, m) == PureEcAdd(p, q, m)
EcMul(k, p, m) == PureEcMul(k, p, m)
=============================================================================
