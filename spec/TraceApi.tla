------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Conformance of recorded executions with module Api. Every session of    *)
(* the trace is a behaviour of the specification iff the state machine     *)
(* below can consume all of its events without setting `bad`.              *)
(*                                                                         *)
(* An event is [op, a, o]: the call, its arguments, and what the library   *)
(* returned. When several builds of the library executed the same script,  *)
(* o of the other builds are in x and have to be the same.                 *)
(***************************************************************************)
EXTENDS Api, TLC, Json, IOUtils

RD == INSTANCE Reader

CONSTANT Mode       \* "exact": results as specified; "agree": all builds agree,
                    \* nothing else; "total": they agree and no call panics

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, i, st, bad
vars == <<sess, i, st, bad>>

Init == sess \in 1..Len(Trace) /\ i = 0 /\ st = EmptyStore /\ bad = <<>>

(* ---- events whose result is not a function of the arguments ---------------- *)
SignJudge(e) ==
  LET d == st.sk[e.a.k][1]
      z == st.ms[e.a.m][1]
      pk == ToHex(Keys!EncodeFull(GMul(d)))
      v == Unhex(e.o.v)
  IN /\ e.o.r = "ok"
     /\ Len(v) = 2 * L
     /\ SignGood(d, z, SubSeq(v, 1, L), SubSeq(v, L + 1, 2 * L), e.o.n)
     /\ e.o.ver = TRUE /\ e.o.pk = pk /\ e.o.rec = pk

Relational(op) == op \in {"sign_full", "sign_raw_full"}
RelOk(e) ==
  IF e.op = "sign_raw_full" /\ ~SignWith(st.sk[e.a.k][1], st.ms[e.a.m][1], Unhex(e.a.nonce)).ok
  THEN e.o.r # "ok" /\ e.o.r # "panic"
  ELSE SignJudge(e)

Agree(e) == "x" \notin DOMAIN e \/ \A k \in DOMAIN e.x : e.x[k] = e.o

Judge(e) ==
  IF Mode = "agree"
  THEN [ok |-> Agree(e), st |-> st, exp |-> [r |-> "all builds agree"]]
  ELSE IF Mode = "total"
  THEN [ok |-> e.o.r # "panic" /\ Agree(e), st |-> st, exp |-> [r |-> "no panic, all builds agree"]]
  ELSE IF e.op = "reader"
  THEN [ok |-> RD!ReaderOk(e.a, e.o) /\ Agree(e), st |-> st,
        exp |-> [r |-> "ok", res |-> RD!ReadAll(e.a.calls, 1, Unhex(e.a.b), 0)]]
  ELSE IF Relational(e.op)
  THEN [ok |-> RelOk(e) /\ Agree(e), st |-> st, exp |-> [r |-> "valid, low-S, recoverable"]]
  ELSE LET x == Expect(e.op, e.a, st)
       IN [ok |-> e.o = x.o /\ Agree(e), st |-> x.st, exp |-> x.o]

Consume ==
  /\ bad = <<>>
  /\ i < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[i + 1]
         j == Judge(e)
     IN /\ i' = i + 1
        /\ st' = j.st
        /\ bad' = IF j.ok THEN <<>> ELSE <<Trace[sess].id, i + 1, e, j.exp>>
        /\ (~j.ok => PrintT("MISMATCH " \o ToJson([id |-> Trace[sess].id, at |-> i + 1, e |-> e, exp |-> j.exp])))
  /\ UNCHANGED sess

Next == Consume
Spec == Init /\ [][Next]_vars

Conforms == bad = <<>>
=============================================================================
