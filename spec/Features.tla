------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* The build configurations of the library and what each provides. A       *)
(* configuration is a set of features; the documentation says              *)
(*   std                  serde of public keys, standard error trait; off:  *)
(*                        nothing needs the standard library                *)
(*   hmac                 deterministic signing                             *)
(*   static-context       shared tables, and the calls that use them        *)
(*   lazy-static-context  the same, built on first use; includes            *)
(*                        static-context and std, and takes its place       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

Feature == {"std", "hmac", "static-context", "lazy-static-context"}

(* the features in effect when f is asked for *)
Closure(f) == IF "lazy-static-context" \in f THEN f \cup {"std", "static-context"} ELSE f

Tables(f) == LET g == Closure(f)
             IN IF "lazy-static-context" \in g THEN "lazy"
                ELSE IF "static-context" \in g THEN "static" ELSE "none"

Freestanding(f) == "std" \notin Closure(f)

(* groups of operations *)
Base == {"codecs", "keys", "verify-ctx", "recover-ctx", "ecdh-ctx", "derive-ctx", "tweak-ctx"}
Shared == {"verify", "recover", "ecdh", "derive", "tweak"}
Provides(f) ==
  LET g == Closure(f)
  IN Base \cup (IF "static-context" \in g THEN Shared ELSE {})
          \cup (IF "std" \in g THEN {"serde"} ELSE {})
          \cup (IF "hmac" \in g THEN {"sign-ctx"} ELSE {})
          \cup (IF {"hmac", "static-context"} \subseteq g THEN {"sign"} ELSE {})

(* configurations that differ once features are closed *)
Distinct == {f \in SUBSET Feature : Closure(f) = f}

Monotone == \A f, g \in SUBSET Feature : f \subseteq g => Provides(f) \subseteq Provides(g)
OneTable == \A f \in SUBSET Feature : Tables(f) # "none" <=> "verify" \in Provides(f)
LazyNeedsStd == \A f \in SUBSET Feature : Tables(f) = "lazy" => ~Freestanding(f)
=============================================================================
