----------------------------- MODULE TraceLazy -----------------------------
(***************************************************************************)
(* Conformance of recorded races with module LazyInit. An event is one     *)
(* look at a shared table by a thread: which table, where it was found,    *)
(* a digest of its bytes, times of call and return. The last event of a    *)
(* session says how many objects of a table's size were made.              *)
(*                                                                         *)
(* A behaviour of LazyInit with these observations exists iff all looks at *)
(* a table found the same, complete table and at most one was made: then   *)
(* the thread that called first can claim, and publish right before the    *)
(* first return. Complete means: the same octets as after all threads have *)
(* ended (event field `whole`).                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Which == {"mul", "gen"}

VARIABLES sess, i, cell, cur, bad
vars == <<sess, i, cell, cur, bad>>

Init == /\ sess \in 1..Len(Trace) /\ i = 0 /\ bad = FALSE
        /\ cell = [w \in Which |-> "empty"]
        /\ cur = [w \in Which |-> ""]

LookOk(e) ==
  /\ e.o.r = "ok"
  /\ e.o.tick[1] < e.o.tick[2]
  /\ cell[e.a.which] = "ready" => cur[e.a.which] = e.o.at
  /\ e.o.h = e.a.whole

(* at most one of a lazily built table, none of the built-in ones *)
MadeOk(e) == \A w \in Which : e.o.made[w] <= (IF e.a.lazy THEN 1 ELSE 0)

Ok(e) == IF e.op = "peek" THEN LookOk(e) ELSE MadeOk(e)

Consume ==
  /\ ~bad /\ i < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[i + 1]
     IN /\ i' = i + 1
        /\ bad' = ~Ok(e)
        /\ IF e.op = "peek" /\ e.o.r = "ok"
           THEN cell' = [cell EXCEPT ![e.a.which] = "ready"] /\ cur' = [cur EXCEPT ![e.a.which] = e.o.at]
           ELSE UNCHANGED <<cell, cur>>
        /\ (~Ok(e) => PrintT("MISMATCH " \o ToJson([id |-> Trace[sess].id, at |-> i + 1, e |-> e,
              exp |-> [r |-> "ok", cell |-> cell, cur |-> cur]])))
  /\ UNCHANGED sess

Spec == Init /\ [][Consume]_vars
Conforms == ~bad
=============================================================================
