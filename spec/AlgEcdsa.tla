------------------------------ MODULE AlgEcdsa ------------------------------
(***************************************************************************)
(* Verification and recovery as the library computes them: the x           *)
(* coordinate of the verification point is compared without dividing by    *)
(* its denominator, first with r and then, when that is still below p,     *)
(* with r + n; recovery adds n to r under the same condition. Decided      *)
(* against module Ecdsa for every key, message, signature, recovery id and *)
(* every denominator the point may come with, on small curves with p > n   *)
(* where both chances are common (C03, C04).                               *)
(***************************************************************************)
EXTENDS Ecdsa, Small, FiniteSets, TLC

CONSTANT Guard      \* "right": r + n is tried when r < p - n. Others are wrong and must be told apart

Scal == {<<k>> : k \in 0..(N[1] - 1)}
Keys == {GMul(<<k>>) : k \in 1..(N[1] - 1)}
Denominators == {<<k>> : k \in 1..(P[1] - 1)}
PMinusN == NatSubMod(P, N, <<255>>)

VARIABLES q, z, done
Init == q \in Keys /\ z \in Scal /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<q, z>>
Spec == Init /\ [][Next]_<<q, z, done>>

MayAdd(x) == CASE Guard = "right" -> NatLt(x, PMinusN)
               [] Guard = "none" -> TRUE
               [] Guard = "never" -> FALSE

\* xx / w^2 is the coordinate
EqX(xx, w, x) == xx = FMul(FSqr(w), x)

AlgVerify(r, s, w) ==
  IF NatIsZero(r) \/ NatIsZero(s) THEN FALSE
  ELSE LET sn == SInv(s)
           pt == PAdd(PMul(SMul(sn, r), q), GMul(SMul(sn, z)))
       IN IF pt = Inf THEN FALSE
          ELSE LET xx == FMul(FSqr(w), pt[1])
               IN \/ EqX(xx, w, r)
                  \/ MayAdd(r) /\ EqX(xx, w, FAdd(r, NatMod(N, P)))

AlgRecover(r, s, id) ==
  LET bad == [ok |-> FALSE, q |-> Inf]
  IN IF NatIsZero(r) \/ NatIsZero(s) THEN bad
     ELSE IF id >= 2 /\ ~MayAdd(r) THEN bad
     ELSE LET fx == IF id >= 2 THEN FAdd(r, NatMod(N, P)) ELSE r
              y == FRoot(CurveRhs(fx))
          IN IF FSqr(y) # CurveRhs(fx) THEN bad
             ELSE LET yy == IF NatOdd(y) = (id % 2 = 1) THEN y ELSE FNeg(y)
                      rn == SInv(r)
                      k == PAdd(PMul(SMul(rn, s), Pt(fx, yy)), GMul(SNeg(SMul(rn, z))))
                  IN IF k = Inf THEN bad ELSE [ok |-> TRUE, q |-> k]

Verifies == done =>
  \A r \in Scal, s \in Scal :
    LET v == Valid(q, z, r, s) IN \A w \in Denominators : AlgVerify(r, s, w) = v
\* q is free here, so that one key per message is enough
Recovers == done /\ q = G =>
  \A r \in Scal, s \in Scal, id \in 0..3 : AlgRecover(r, s, id) = Recover(z, r, s, id)
=============================================================================
