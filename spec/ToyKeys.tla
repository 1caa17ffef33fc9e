------------------------------ MODULE ToyKeys -------------------------------
(***************************************************************************)
(* Histories of keys through the actions of module Api, on a small curve   *)
(* where sums and tweaks meet infinity all the time. A ghost variable      *)
(* remembers for each public key the scalar whose multiple of G it has to  *)
(* be. Decides C07, C09, C10, C11 and C25 for the specification: the       *)
(* actions keep public and secret keys together, fail together, and a      *)
(* failed action changes nothing.                                          *)
(***************************************************************************)
EXTENDS Api, Small, FiniteSets, TLC

CONSTANTS Ks, Ps           \* slots of secret and of public keys in use

n == N[1]
Scal == {<<k>> : k \in 0..(n - 1)}
Secret == Scal \ {<<0>>}
T == 15                    \* slot of the tweak

VARIABLES st, log          \* log[p]: <<scalar>> of the public key in slot p
vars == <<st, log>>

Init == st = [EmptyStore EXCEPT !.sk[0] = <<One>>] /\ log = [p \in Ps |-> <<>>]

(* slot T is scratch: it does not count as state *)
Keep(s) == [s EXCEPT !.sk[T] = <<>>]
With(t) == PutSk(st, T, t)

(* a public-key action succeeds exactly when the ghost says the result is not infinity *)
PkStep(x, p, v, before) ==
  LET ok == x.o.r = "ok"
  IN /\ Assert(ok <=> ~NatIsZero(v), <<"fails when it should not or the other way round", x.o, v>>)
     /\ Assert(~ok => Keep(x.st) = st, <<"a failed action changes the store", x.o>>)
     /\ st' = Keep(x.st)
     /\ log' = IF ok THEN [log EXCEPT ![p] = <<v>>] ELSE log

SkStep(x) ==
  /\ Assert(x.o.r # "ok" => Keep(x.st) = st, <<"a failed action changes the store", x.o>>)
  /\ st' = Keep(x.st) /\ UNCHANGED log

KeyOps ==
  \/ \E k \in Ks, b \in {<<c>> : c \in 0..(n + 1)} : SkStep(Expect("sk_parse", [d |-> k, b |-> ToHex(b)], st))
  \/ \E k \in Ks : Has(st.sk, k) /\
       \/ \E t \in Scal, op \in {"sk_tadd", "sk_tmul"} : SkStep(Expect(op, [k |-> k, t |-> T], With(t)))
       \/ ~NatIsZero(st.sk[k][1]) /\ SkStep(Expect("sk_inv", [k |-> k, d |-> k], st))
       \/ SkStep(Expect("sk_clear", [k |-> k], st))

PubOps ==
  \/ \E k \in Ks, p \in Ps : Has(st.sk, k) /\ ~NatIsZero(st.sk[k][1])
       /\ PkStep(Expect("pk_derive", [k |-> k, d |-> p], st), p, st.sk[k][1], st)
  \/ \E p \in Ps : Has(st.pk, p) /\
       \/ \E t \in Scal : PkStep(Expect("pk_tadd", [p |-> p, t |-> T], With(t)), p, SAdd(log[p][1], t), st)
       \/ \E t \in Scal : PkStep(Expect("pk_tmul", [p |-> p, t |-> T], With(t)), p, SMul(log[p][1], t), st)
       \/ \E q \in Ps, d \in Ps : Has(st.pk, q) /\
            PkStep(Expect("pk_combine", [d |-> d, ps |-> <<p, q>>], st), d, SAdd(log[p][1], log[q][1]), st)
       \/ \E q \in Ps, d \in Ps : Has(st.pk, q) /\
            PkStep(Expect("pk_combine", [d |-> d, ps |-> <<p, q, p>>], st), d,
                   SAdd(SAdd(log[p][1], log[q][1]), log[p][1]), st)
  \/ \E d \in Ps : PkStep(Expect("pk_combine", [d |-> d, ps |-> <<>>], st), d, Zero, st)

Next == KeyOps \/ PubOps
Spec == Init /\ [][Next]_vars

(* every public key is the multiple the history says *)
Together == \A p \in Ps : Has(st.pk, p) => /\ Has(log, p) /\ ~NatIsZero(log[p][1])
                                           /\ st.pk[p][1] = GMul(log[p][1])

(* a secret key and a public key that belong together do so after the same tweak, and fail together *)
Commute ==
  \A k \in Ks, p \in Ps :
    Has(st.sk, k) /\ Has(st.pk, p) /\ ~NatIsZero(st.sk[k][1]) /\ st.pk[p][1] = GMul(st.sk[k][1]) =>
      \A t \in Scal, o \in {"tadd", "tmul"} :
        LET a == Expect("sk_" \o o, [k |-> k, t |-> T], With(t))
            b == Expect("pk_" \o o, [p |-> p, t |-> T], With(t))
        IN /\ a.o.r = b.o.r /\ a.o.r \in {"ok", "TweakOutOfRange"}
           /\ a.o.r = "ok" => b.st.pk[p][1] = GMul(a.st.sk[k][1])

(* both sides of a key agreement get the same *)
Secretly ==
  \A k \in Ks, m \in Ks :
    (Has(st.sk, k) /\ Has(st.sk, m) /\ ~NatIsZero(st.sk[k][1]) /\ ~NatIsZero(st.sk[m][1])) =>
      LET a == PutPk(st, 14, GMul(st.sk[m][1]))
          b == PutPk(st, 14, GMul(st.sk[k][1]))
      IN Expect("ecdh", [p |-> 14, k |-> k, dig |-> "id33"], a).o = Expect("ecdh", [p |-> 14, k |-> m, dig |-> "id33"], b).o
Cleared ==
  \A k \in Ks, p \in Ps :
    Has(st.sk, k) /\ NatIsZero(st.sk[k][1]) /\ Has(st.pk, p) =>
      /\ Expect("ecdh", [p |-> p, k |-> k, dig |-> "id33"], st).o.r = "InvalidSecretKey"
      /\ Expect("sk_is_zero", [k |-> k], st).o.b

(* encodings of whatever key the history made *)
Codecs ==
  \A p \in Ps : Has(st.pk, p) =>
    LET q == st.pk[p][1]
        de(b, f) == Expect("pk_parse_slice", [d |-> p, b |-> ToHex(b), fmt |-> f], st).st.pk[p][1]
    IN /\ de(Keys!EncodeFull(q), "none") = q /\ de(Keys!EncodeFull(q), "full") = q
       /\ de(Keys!EncodeCompressed(q), "none") = q /\ de(Keys!EncodeCompressed(q), "comp") = q
       /\ de(q[1] \o q[2], "raw") = q
       /\ Expect("pk_from_bin", [d |-> p, b |-> ToHex(Keys!EncodeFull(q))], st).st.pk[p][1] = q
       /\ LET j == Expect("pk_json", [p |-> p], st).o.v
          IN Expect("pk_from_json", [d |-> p, t |-> j], st).st.pk[p][1] = q
       /\ \A q2 \in Ps : Has(st.pk, q2) => (Keys!EncodeCompressed(q) = Keys!EncodeCompressed(st.pk[q2][1]) <=> q = st.pk[q2][1])
=============================================================================
