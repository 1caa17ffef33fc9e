------------------------------ MODULE ToyEcdsa ------------------------------
(***************************************************************************)
(* What ECDSA as specified in module Ecdsa promises, decided for every key,*)
(* message, nonce and signature of a small curve. The properties C01, C03, *)
(* C04 and C15 follow for the specification; the library is compared with  *)
(* the same operators on secp256k1.                                        *)
(***************************************************************************)
EXTENDS Ecdsa, Small, FiniteSets, TLC

n == N[1]
Scal == {<<k>> : k \in 0..(n - 1)}
Secret == Scal \ {<<0>>}

VARIABLES d, z, done        \* done = FALSE first, so that the cases are evaluated in parallel
vars == <<d, z, done>>
Init == d \in Secret /\ z \in Scal /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<d, z>>
Spec == Init /\ [][Next]_vars

Q == GMul(d)
Flip(id) == IF id % 2 = 1 THEN id - 1 ELSE id + 1

(* Signing with any nonce gives a good signature or nothing, and nothing only when r or s vanishes. *)
SignsWell == done =>
  \A k \in Secret :
    LET g == SignWith(d, z, k)
    IN IF g.ok THEN SignGood(d, z, g.r, g.s, g.id)
       ELSE NatIsZero(SRed(GMul(k)[1])) \/ NatIsZero(SAdd(z, SMul(SRed(GMul(k)[1]), d)))

(* The deterministic signer, which has to pass over most candidates on a small curve. *)
SignsDet == done => LET g == SignDet(d, z) IN g.ok /\ SignGood(d, z, g.r, g.s, g.id)

(* Every valid signature, made low, is one the signer makes with some nonce. *)
Complete == done =>
  LET made == {<<SignWith(d, z, k).r, SignWith(d, z, k).s>> : k \in {k \in Secret : SignWith(d, z, k).ok}}
  IN \A r \in Secret, s \in Secret : Valid(Q, z, r, s) <=> <<r, Low(s)>> \in made

(* Recovery and verification are two views of one relation. *)
Agree == done =>
  \A r \in Scal, s \in Scal :
    LET rec == [id \in 0..3 |-> Recover(z, r, s, id)]
    IN /\ Valid(Q, z, r, s) <=> \E id \in 0..3 : rec[id].ok /\ rec[id].q = Q
       /\ \A i, j \in 0..3 : i # j /\ rec[i].ok /\ rec[j].ok => rec[i].q # rec[j].q

(* The high twin has the same keys with flipped parities; the low one is unique. *)
Twins == done =>
  \A r \in Scal, s \in Scal :
    /\ Valid(Q, z, r, s) <=> Valid(Q, z, r, SNeg(s))
    /\ Valid(Q, z, r, s) <=> Valid(Q, z, r, Low(s))
    /\ \A id \in 0..3 : Recover(z, r, s, id) = Recover(z, r, SNeg(s), Flip(id))
    /\ ~SHigh(Low(s)) /\ Low(Low(s)) = Low(s) /\ Low(SNeg(s)) = Low(s)
    /\ NatIsZero(s) \/ (SHigh(s) # SHigh(SNeg(s)))

(* Only r and s below N and not 0 are ever valid, and a signature is valid for one message per key and r, s
   up to the sign of the nonce point. *)
Strict == done =>
  \A r \in Scal, s \in Scal :
    /\ (NatIsZero(r) \/ NatIsZero(s)) => ~Valid(Q, z, r, s)
    /\ Cardinality({m \in Scal : Valid(Q, m, r, s)}) <= 4
=============================================================================
