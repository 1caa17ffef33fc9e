------------------------------- MODULE Ecdsa -------------------------------
(***************************************************************************)
(* ECDSA over module Curve: what a valid signature is, which keys a        *)
(* signature recovers to, and the deterministic signature of RFC 6979 in   *)
(* low-S form. A signature is a record [r, s] of scalars in [0, N-1].      *)
(***************************************************************************)
EXTENDS Curve, Sha256

Low(s) == IF SHigh(s) THEN SNeg(s) ELSE s

(* Verification. x(R) mod N = r is the definition: both x = r and x = r + N *)
(* count, when they are field elements.                                     *)
VerifyPoint(q, z, r, s) ==
  LET si == SInv(s) IN PAdd(GMul(SMul(z, si)), PMul(SMul(r, si), q))
Valid(q, z, r, s) ==
  /\ ~NatIsZero(r) /\ ~NatIsZero(s)
  /\ LET rr == VerifyPoint(q, z, r, s)
     IN rr # Inf /\ NatMod(rr[1], N) = r

(* Recovery. [ok, q] *)
RecoverX(r, id) == IF id >= 2 THEN Fit(PureAdd(r, N), L + 1) ELSE <<0>> \o r
Recover(z, r, s, id) ==
  LET x == RecoverX(r, id)
      bad == [ok |-> FALSE, q |-> Inf]
  IN IF NatIsZero(r) \/ NatIsZero(s) THEN bad
     ELSE IF ~NatLt(x, P) THEN bad
     ELSE IF ~Liftable(x) THEN bad
     ELSE LET rr == Lift(NatMod(x, P), (id % 2) = 1)
              ri == SInv(r)
              q == PAdd(PMul(SMul(s, ri), rr), GMul(SNeg(SMul(z, ri))))
          IN IF q = Inf THEN bad ELSE [ok |-> TRUE, q |-> q]

(* Signing with an explicit nonce k in [1, N-1]. [ok, r, s, id] *)
SignWith(d, z, k) ==
  LET rr == GMul(k)
      r == SRed(rr[1])
      s0 == SMul(SInv(k), SAdd(z, SMul(r, d)))
      id0 == (IF NatLt(rr[1], N) THEN 0 ELSE 2) + (IF NatOdd(rr[2]) THEN 1 ELSE 0)
  IN IF NatIsZero(s0) \/ NatIsZero(r)
     THEN [ok |-> FALSE, r |-> r, s |-> s0, id |-> id0]
     ELSE IF SHigh(s0)
          THEN [ok |-> TRUE, r |-> r, s |-> SNeg(s0), id |-> IF id0 % 2 = 1 THEN id0 - 1 ELSE id0 + 1]
          ELSE [ok |-> TRUE, r |-> r, s |-> s0, id |-> id0]

(* A machine that draws candidates from the generator until one is usable. *)
(* A candidate is the first L octets of an output (all 32 on secp256k1).   *)
RECURSIVE SignFrom(_, _, _)
SignFrom(d, z, g) ==
  LET nx == DrbgNext(g)
      k == SubSeq(nx.out, 1, L)
      res == IF IsSecretEnc(k) THEN SignWith(d, z, k) ELSE [ok |-> FALSE]
  IN IF res.ok THEN res ELSE SignFrom(d, z, nx.d)

SignDet(d, z) == SignFrom(d, z, DrbgInit(Fit(d, 32), Fit(z, 32)))

(***************************************************************************)
(* Signing as a relation (property C01): whatever the nonce was, the       *)
(* signature is valid, low-S and recovers to the signer's key.             *)
(***************************************************************************)
SignGood(d, z, r, s, id) ==
  /\ IsSecretEnc(r) /\ IsSecretEnc(s) /\ ~SHigh(s) /\ id \in 0..3
  /\ Valid(GMul(d), z, r, s)
  /\ LET rec == Recover(z, r, s, id) IN rec.ok /\ rec.q = GMul(d)
=============================================================================
