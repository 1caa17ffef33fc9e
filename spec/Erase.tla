------------------------------- MODULE Erase -------------------------------
(***************************************************************************)
(* Erasure of secrets, on a small machine: an object of several memory     *)
(* words is filled with a secret, used, cleared, and goes out of scope.    *)
(* A compiler may leave out a store to an object that nothing reads any    *)
(* more before it ends, unless the store is volatile. What remains in the  *)
(* memory is the residue. Erased: the residue is the same whatever the     *)
(* secret was.                                                             *)
(*                                                                         *)
(* This is the specification of C23's memory part; the property checked on *)
(* recorded executions (TraceErase) is the same non-interference: after    *)
(* clear, the image of an object is a function of its kind alone, both     *)
(* while it is alive and once it is gone.                                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Words,        \* the words an object is made of
          Values,       \* what a word may hold; Wiped is one of them
          Wiped,
          Cleared,      \* the words clear stores to
          Volatile      \* the words clear stores to with volatile stores

VARIABLES secret, mem, phase, dropped, lastread
vars == <<secret, mem, phase, dropped, lastread>>

Init == /\ secret \in [Words -> Values]
        /\ mem = [w \in Words |-> Wiped]
        /\ phase = "fresh"
        /\ dropped = {}
        /\ lastread = FALSE

Fill == phase = "fresh" /\ phase' = "live" /\ mem' = secret /\ UNCHANGED <<secret, dropped, lastread>>

(* Whether the object is read after clear is known when the code is compiled:
   the stores that may be left out are chosen at the time of clear. *)
Clear ==
  /\ phase = "live"
  /\ \E read \in BOOLEAN :
       \E out \in SUBSET (Cleared \ Volatile) :
         /\ read => out = {}
         /\ lastread' = read
         /\ dropped' = out
         /\ mem' = [w \in Words |-> IF w \in Cleared \ out THEN Wiped ELSE mem[w]]
  /\ phase' = "cleared"
  /\ UNCHANGED secret

Read == phase = "cleared" /\ lastread /\ UNCHANGED vars
End == phase = "cleared" /\ phase' = "gone" /\ UNCHANGED <<secret, mem, dropped, lastread>>

Next == Fill \/ Clear \/ Read \/ End
Spec == Init /\ [][Next]_vars

Erased == phase \in {"cleared", "gone"} => mem = [w \in Words |-> Wiped]
=============================================================================
