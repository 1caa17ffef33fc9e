------------------------------ MODULE TraceLow ------------------------------
(* Conformance of recorded executions with module Low; see TraceApi. *)
EXTENDS Low, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, i, st, bad
vars == <<sess, i, st, bad>>

Init == sess \in 1..Len(Trace) /\ i = 0 /\ st = EmptyRegs /\ bad = <<>>

Agree(e) == "x" \notin DOMAIN e \/ \A k \in DOMAIN e.x : e.x[k] = e.o
Decide(e) ==
  LET j == Judge(e, st) IN [j EXCEPT !.ok = j.ok /\ e.o.r # "panic" /\ Agree(e)]

Consume ==
  /\ bad = <<>>
  /\ i < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[i + 1]
         j == Decide(e)
     IN /\ i' = i + 1
        /\ st' = j.st
        /\ bad' = IF j.ok THEN <<>> ELSE <<Trace[sess].id, i + 1, e, j.exp>>
        /\ (~j.ok => PrintT("MISMATCH " \o ToJson([id |-> Trace[sess].id, at |-> i + 1, e |-> e, exp |-> j.exp])))
  /\ UNCHANGED sess

Next == Consume
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
