------------------------------ MODULE LazyInit ------------------------------
(***************************************************************************)
(* A table built on first use by whichever thread comes first, while the   *)
(* others wait (the lazily built contexts of the library). The table has   *)
(* several entries, written one after another by its builder.              *)
(*                                                                         *)
(* Once = TRUE: a thread becomes the builder only if there is none.        *)
(* Once = FALSE: check and claim are separate steps (the mistake).         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Threads, Entries, Once, Uses

VARIABLES cell,      \* "empty", "claimed", "ready"
          tables,    \* tables made so far: number of entries written of each
          cur,       \* which table is published (0: none)
          pc,        \* per thread
          mine,      \* the table a thread builds
          got,       \* what a thread was given: <<table, entries it had>>
          left       \* uses a thread still has to make
vars == <<cell, tables, cur, pc, mine, got, left>>

Init == /\ cell = "empty" /\ tables = <<>> /\ cur = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ mine = [t \in Threads |-> 0]
        /\ got = [t \in Threads |-> {}]
        /\ left = [t \in Threads |-> Uses]

Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ pc' = [pc EXCEPT ![t] = "asked"]
           /\ UNCHANGED <<cell, tables, cur, mine, got, left>>

StartTable(t) ==
  /\ tables' = Append(tables, 0)
  /\ mine' = [mine EXCEPT ![t] = Len(tables) + 1]
  /\ pc' = [pc EXCEPT ![t] = "building"]

Claim(t) ==
  /\ Once /\ pc[t] = "asked" /\ cell = "empty"
  /\ cell' = "claimed"
  /\ StartTable(t)
  /\ UNCHANGED <<cur, got, left>>

(* the mistaken variant *)
Look(t) ==
  /\ ~Once /\ pc[t] = "asked" /\ cell # "ready"
  /\ pc' = [pc EXCEPT ![t] = "sawnone"]
  /\ UNCHANGED <<cell, tables, cur, mine, got, left>>
ClaimLate(t) ==
  /\ pc[t] = "sawnone"
  /\ cell' = "claimed"
  /\ StartTable(t)
  /\ UNCHANGED <<cur, got, left>>

Write(t) ==
  /\ pc[t] = "building" /\ tables[mine[t]] < Entries
  /\ tables' = [tables EXCEPT ![mine[t]] = @ + 1]
  /\ UNCHANGED <<cell, cur, pc, mine, got, left>>

Publish(t) ==
  /\ pc[t] = "building" /\ tables[mine[t]] = Entries
  /\ cell' = "ready" /\ cur' = mine[t]
  /\ pc' = [pc EXCEPT ![t] = "asked"]
  /\ UNCHANGED <<tables, mine, got, left>>

Use(t) ==
  /\ pc[t] = "asked" /\ cell = "ready"
  /\ got' = [got EXCEPT ![t] = @ \cup {<<cur, tables[cur]>>}]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<cell, tables, cur, mine>>

Step(t) == Call(t) \/ Claim(t) \/ Look(t) \/ ClaimLate(t) \/ Write(t) \/ Publish(t) \/ Use(t)
Next == \E t \in Threads : Step(t)
Fairness == \A t \in Threads : WF_vars(Step(t))
Spec == Init /\ [][Next]_vars /\ Fairness

BuiltOnce == Len(tables) <= 1
Same == \A t, u \in Threads : \A x \in got[t], y \in got[u] : x = y
Whole == \A t \in Threads : \A x \in got[t] : x[2] = Entries
Finished == <>(\A t \in Threads : left[t] = 0)
=============================================================================
