----------------------------- MODULE SchemeLaws -----------------------------
(***************************************************************************)
(* The arithmetic modulo the order of the group behind signing, verifying, *)
(* recovering, tweaking and key agreement, as the library computes it,     *)
(* over any arithmetic. A point is written as its logarithm to the base G. *)
(***************************************************************************)
EXTENDS Sequences, Integers
CONSTANTS Add(_, _), Neg(_), Mul(_, _), One

(* as computed: 1 / k, 1 / s, 1 / r are arguments *)
Sign(d, z, r, kinv) == Mul(kinv, Add(Mul(r, d), z))
Verify(q, z, r, sinv) == Add(Mul(Mul(sinv, z), One), Mul(Mul(sinv, r), q))
Recover(k, z, r, s, rinv) == Add(Mul(Neg(Mul(rinv, z)), One), Mul(Mul(rinv, s), k))

Claims == {"signed", "high", "recovers", "recoversHigh", "complete", "strict", "twin", "shared", "tweaks", "undone"}
Controls == {"wrongHalf", "unsigned"}

(* how many variables are free, and which of them also occurs inverted (as the last variable) *)
Free(c) == CASE c \in {"signed", "high", "unsigned", "complete", "strict"} -> 4
             [] c \in {"recovers", "recoversHigh", "wrongHalf", "twin"} -> 4
             [] c \in {"shared", "undone"} -> 2 [] c = "tweaks" -> 4
Inverse(c) == CASE c \in {"signed", "high", "unsigned", "strict", "twin"} -> 1
                [] c \in {"recovers", "recoversHigh", "wrongHalf", "complete"} -> 2
                [] c = "undone" -> 1 [] OTHER -> 0

(* v = s, r, k, d, inverse. A message that k signs with s is z = s k - r d, as `strict` has it. *)
Z(v) == Add(Mul(v[1], v[3]), Neg(Mul(v[2], v[4])))
Sides(c, v) ==
  CASE c = "signed" -> <<<<Verify(v[4], Z(v), v[2], v[5]), v[3]>>>>              \* the nonce point again
    [] c = "high" -> <<<<Verify(v[4], Z(v), v[2], Neg(v[5])), Neg(v[3])>>>>       \* its opposite: the same x
    [] c = "recovers" -> <<<<Recover(v[3], Z(v), v[2], v[1], v[5]), v[4]>>>>
    [] c = "recoversHigh" ->                                                     \* s negated, parity flipped
         <<<<Recover(Neg(v[3]), Z(v), v[2], Neg(v[1]), v[5]), v[4]>>>>
    [] c = "complete" ->                                                         \* v = s, r, k, z: any of them
         LET q == Recover(v[3], v[4], v[2], v[1], v[5])                           \* s times what verify computes:
         IN <<<<Add(v[4], Mul(v[2], q)), Mul(v[1], v[3])>>>>                      \* the point k again
    [] c = "strict" ->                                                           \* v = s, r, z, d: what is accepted
         LET k == Verify(v[4], v[3], v[2], v[5])                                  \* is what signing with k gives
         IN <<<<Mul(v[1], k), Add(Mul(v[2], v[4]), v[3])>>>>
    [] c = "twin" ->                                                             \* v = k, r, z, d: both nonces
         <<<<Sign(v[4], v[3], v[2], Neg(v[5])), Neg(Sign(v[4], v[3], v[2], v[5]))>>,
           <<Mul(v[1], Sign(v[4], v[3], v[2], v[5])), Add(v[3], Mul(v[2], v[4]))>>>>
    [] c = "shared" -> <<<<Mul(v[1], Mul(v[2], One)), Mul(v[2], Mul(v[1], One))>>>>
    [] c = "tweaks" ->                                                           \* v = d, t, u, other key
         <<<<Mul(Add(v[1], v[2]), One), Add(Mul(v[1], One), Mul(v[2], One))>>,    \* of the key, of the point
           <<Mul(Mul(v[1], v[2]), One), Mul(v[2], Mul(v[1], One))>>,
           <<Add(Add(v[1], v[2]), v[3]), Add(Add(v[1], v[3]), v[2])>>,            \* in any order
           <<Mul(Mul(v[1], v[2]), v[3]), Mul(Mul(v[1], v[3]), v[2])>>,
           <<Mul(Add(v[1], v[4]), v[2]), Add(Mul(v[1], v[2]), Mul(v[4], v[2]))>>>>  \* of a sum of keys
    [] c = "undone" ->                                                           \* v = t, d, 1 / t
         <<<<Mul(Mul(v[2], v[1]), v[3]), v[2]>>, <<Add(Add(v[2], v[1]), Neg(v[1])), v[2]>>>>
    [] c = "wrongHalf" -> <<<<Recover(v[3], Z(v), v[2], Neg(v[1]), v[5]), v[4]>>>>
    [] c = "unsigned" -> <<<<Verify(v[4], Z(v), v[2], Neg(v[5])), v[3]>>>>
=============================================================================
