------------------------------ MODULE Sha256 ------------------------------
(***************************************************************************)
(* SHA-256, HMAC-SHA256 and the RFC 6979 (HMAC-DRBG) nonce generator.      *)
(***************************************************************************)
EXTENDS Sha256Pure

Sha256(m) == PureSha256(m)      \* replaced by Java, see MCBigNat

Hmac(key, m) ==
  LET k0 == IF Len(key) > 64 THEN Sha256(key) ELSE key
      k == k0 \o [i \in 1..(64 - Len(k0)) |-> 0]
      x(c) == [i \in 1..64 |-> k[i] ^^ c]
  IN Sha256(x(92) \o Sha256(x(54) \o m))

(* Generator state: [k, v]. RFC 6979 section 3.2, steps b. to g. *)
DrbgUpdate(d, seed) ==
  LET k1 == Hmac(d.k, d.v \o <<0>> \o seed)
      v1 == Hmac(k1, d.v)
  IN IF seed = <<>> THEN [k |-> k1, v |-> v1]
     ELSE LET k2 == Hmac(k1, v1 \o <<1>> \o seed)
          IN [k |-> k2, v |-> Hmac(k2, v1)]

DrbgInit(key, msg) ==
  DrbgUpdate([k |-> [i \in 1..32 |-> 0], v |-> [i \in 1..32 |-> 1]], key \o msg)

(* Step h: the next candidate and the state after it. *)
DrbgNext(d) ==
  LET v1 == Hmac(d.k, d.v)
  IN [out |-> v1, d |-> DrbgUpdate([k |-> d.k, v |-> v1], <<>>)]
===========================================================================
