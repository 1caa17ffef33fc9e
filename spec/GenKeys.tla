------------------------------- MODULE GenKeys -------------------------------
(***************************************************************************)
(* The transition graph of a secret key and two public keys under the      *)
(* actions of module Api, on secp256k1 itself, as long as every logarithm  *)
(* stays in a chosen finite set: the sixth roots of unity (where adding    *)
(* and tweaking lead to equal, opposite and beta-related points or to      *)
(* infinity most of the time), or signed powers of two. TLC explores the   *)
(* graph and prints each of its transitions; walks that take every one of  *)
(* them (lib/stages.py) are executed by the library and judged by          *)
(* MCTraceApi.                                                             *)
(***************************************************************************)
EXTENDS Api, Secp256k1, TLC, Json, Sequences, FiniteSets

CONSTANT Family

(* a primitive sixth root of unity: -lambda, of the curve's endomorphism *)
Omega == Unhex("ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283cf")
Half1 == SInv(Fit(<<2>>, L))
RootsOf(f) ==
  CASE f = "six" -> << One, Omega, SMul(Omega, Omega), SNeg(One), SNeg(Omega), SNeg(SMul(Omega, Omega)) >>
    [] OTHER -> << One, Fit(<<2>>, L), Half1, SNeg(One), SNeg(Fit(<<2>>, L)), SNeg(Half1) >>
ASSUME Family # "six" \/ (SMul(Omega, SMul(Omega, Omega)) = SNeg(One) /\ Omega # SNeg(One))

VARIABLES sk, p, q,         \* sk: scalar; p, q: points
          fam               \* the family: a constant, kept in the state for TLC's sake
vars == <<sk, p, q, fam>>
Roots == fam.r
S == {fam.r[i] : i \in 1..6}

(* slots 4..9 of the secret keys hold the family, slot 10 holds zero *)
TweakSlots == 4..10
Base == [EmptyStore EXCEPT !.sk = [i \in Slots |-> IF i \in 4..9 THEN <<Roots[i - 3]>> ELSE IF i = 10 THEN <<Zero>> ELSE <<>>],
                           !.ms[0] = <<One>>]

St(a, b, c) == [Base EXCEPT !.sk[0] = <<a>>, !.pk[0] = <<b>>, !.pk[1] = <<c>>]
Here == St(sk, p, q)

Live == ~NatIsZero(sk)
Lists == UNION {[1..k -> {0, 1}] : k \in 0..3}
Calls ==
  {[op |-> o, a |-> [k |-> 0, t |-> t]] : o \in {"sk_tadd", "sk_tmul"}, t \in {0} \cup TweakSlots}
  \cup {[op |-> "sk_copy", a |-> [k |-> k, d |-> 0]] : k \in 4..9}
  \cup {[op |-> "sk_clear", a |-> [k |-> 0]], [op |-> "sk_is_zero", a |-> [k |-> 0]]}
  \cup {[op |-> o, a |-> [p |-> i, t |-> t, ctx |-> IF i = 0 THEN "static" ELSE "boxed"]] : o \in {"pk_tadd", "pk_tmul"}, i \in {0, 1}, t \in {0} \cup TweakSlots}
  \cup {[op |-> "pk_combine", a |-> [ps |-> l, d |-> IF Len(l) = 2 THEN l[1] ELSE Len(l) % 2]] : l \in Lists}
  \cup {[op |-> "pk_copy", a |-> [p |-> i, d |-> 1 - i]] : i \in {0, 1}}
  \cup {[op |-> "pk_eq", a |-> [p |-> i, q |-> j]] : i \in {0, 1}, j \in {0, 1}}
  \cup {[op |-> "ecdh", a |-> [p |-> i, k |-> 0, dig |-> "id33", ctx |-> "static"]] : i \in {0, 1}}
  \cup (IF Live THEN {[op |-> "sk_inv", a |-> [k |-> 0, d |-> 0]]}
                     \cup {[op |-> "pk_derive", a |-> [k |-> 0, d |-> i, ctx |-> "static"]] : i \in {0, 1}}
        ELSE {})

(* states by their position in the family *)
Pos(v) == IF NatIsZero(v) THEN 0 ELSE CHOOSE i \in DOMAIN Roots : Roots[i] = v
Pts == fam.p
PtSet == {fam.p[i] : i \in 1..6}
PPos(x) == CHOOSE i \in DOMAIN Roots : Pts[i] = x
Inside(s) == /\ NatIsZero(s.sk[0][1]) \/ s.sk[0][1] \in S
             /\ s.pk[0][1] \in PtSet /\ s.pk[1][1] \in PtSet
Name(s) == IF Inside(s) THEN <<Pos(s.sk[0][1]), PPos(s.pk[0][1]), PPos(s.pk[1][1])>> ELSE <<>>

Init ==
  /\ fam = [r |-> RootsOf(Family), p |-> LET r == RootsOf(Family) IN <<GMul(r[1]), GMul(r[2]), GMul(r[3]), GMul(r[4]), GMul(r[5]), GMul(r[6])>>]
  /\ sk = One /\ p = G /\ q = G
Next ==
  \E c \in Calls :
    LET x == Expect(c.op, c.a, Here)
    IN /\ PrintT("EDGE " \o ToJson(<<Name(Here), c, Name(x.st)>>))
       /\ Inside(x.st)
       /\ sk' = x.st.sk[0][1] /\ p' = x.st.pk[0][1] /\ q' = x.st.pk[1][1] /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars

(* a secret key is zero only when it was cleared or built from cleared ones; public keys never are infinity *)
Sound == p # Inf /\ q # Inf
=============================================================================
