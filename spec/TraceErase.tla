----------------------------- MODULE TraceErase -----------------------------
(***************************************************************************)
(* Conformance of recorded executions with module Erase, as                *)
(* non-interference: a session clears objects of one kind holding          *)
(* different secrets; every image after clear, of living objects and of    *)
(* memory whose object is gone, is the same image, and the object reports  *)
(* that it is zero.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, i, img, bad
vars == <<sess, i, img, bad>>

Init == sess \in 1..Len(Trace) /\ i = 0 /\ img = <<>> /\ bad = <<>>

Kinds == {"clear_sk", "clear_scalar", "clear_field", "clear_affine", "clear_jacobian"}

Ok(e) == /\ e.op \in Kinds
         /\ e.o.r = "ok"
         /\ e.o.zero
         /\ e.o.live = e.o.gone
         /\ img = <<>> \/ img = <<e.o.live>>

Consume ==
  /\ bad = <<>>
  /\ i < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[i + 1]
     IN /\ i' = i + 1
        /\ img' = IF e.o.r = "ok" THEN <<e.o.live>> ELSE img
        /\ bad' = IF Ok(e) THEN <<>> ELSE <<Trace[sess].id, i + 1, e>>
        /\ (~Ok(e) => PrintT("MISMATCH " \o ToJson([id |-> Trace[sess].id, at |-> i + 1, e |-> e,
              exp |-> [r |-> "ok", zero |-> TRUE, live |-> img, gone |-> img]])))
  /\ UNCHANGED sess

Next == Consume
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
