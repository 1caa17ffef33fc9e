----------------------------- MODULE TraceLeak -----------------------------
(***************************************************************************)
(* Conformance of watched executions with module Leak. A session is one    *)
(* operation of one build with one set of public inputs; its events are    *)
(* executions of it with different secrets, each with what was seen:       *)
(* how many instructions ran and which (a digest of their addresses in     *)
(* order), how many places in memory were touched and which. Two           *)
(* executions that give away the same must look the same. What is given    *)
(* away is a bit for signing (whether the scalar s had to be negated) and  *)
(* nothing for all others.                                                 *)
(*                                                                         *)
(* To look the same is to touch the same places in the same order, and to  *)
(* run the same number of instructions but for a few that touch nothing:   *)
(* a choice between two values held in registers is the compiler's to make *)
(* with a mask, a conditional move or a short jump, and it changes its     *)
(* mind when code near by is put in another form.                          *)
(*                                                                         *)
(* The controls are programs that do give their secret away: the watcher   *)
(* must tell them apart exactly by what they give away.                    *)
(***************************************************************************)
EXTENDS Ecdsa, Hex, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, i, seen, bad
vars == <<sess, i, seen, bad>>

Init == sess \in 1..Len(Trace) /\ i = 0 /\ seen = <<>> /\ bad = <<>>

\* the s of a signature before it is brought into its lower half is in the upper half
Negated(d, z, k) == LET r == SRed(GMul(k)[1]) IN SHigh(SMul(SInv(k), SAdd(z, SMul(r, d))))

RECURSIVE Nonce(_)
Nonce(g) == LET nx == DrbgNext(g)
                k == SubSeq(nx.out, 1, L)
            IN IF IsSecretEnc(k) THEN k ELSE Nonce(nx.d)

Arg(e, j) == Unhex(e.a.v[j])
Control(e) == e.op \in {"control_branch", "control_lookup"}
Given(e) ==
  CASE e.op = "sign" -> LET z == SRed(Arg(e, 4))
                        IN IF Negated(Arg(e, 1), z, Nonce(DrbgInit(Arg(e, 1), z))) THEN 1 ELSE 0
    [] e.op = "sign_raw" -> IF Negated(Arg(e, 1), SRed(Arg(e, 4)), Arg(e, 2)) THEN 1 ELSE 0
    [] e.op = "control_branch" -> Arg(e, 1)[32] % 2
    [] e.op = "control_lookup" -> Arg(e, 1)[32]
    [] OTHER -> 0

Look(e) == <<e.o.steps, e.o.path, e.o.touches, e.o.places>>
Few == 16
Alike(v, w) == /\ v[3] = w[3] /\ v[4] = w[4]
               /\ v[1] - w[1] <= Few /\ w[1] - v[1] <= Few
Ok(e, g) == /\ e.o.r = "ok"
            /\ \A k \in DOMAIN seen :
                 IF Control(e) THEN (seen[k][1] = g) <=> (seen[k][2] = Look(e))
                 ELSE seen[k][1] = g => Alike(seen[k][2], Look(e))

Add(g, w) == IF <<g, w>> \in {seen[k] : k \in DOMAIN seen} THEN seen ELSE Append(seen, <<g, w>>)

Consume ==
  /\ bad = <<>>
  /\ i < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[i + 1]
         g == Given(e)
         ok == Ok(e, g)
     IN /\ i' = i + 1
        /\ seen' = IF e.o.r = "ok" THEN Add(g, Look(e)) ELSE seen
        /\ bad' = IF ok THEN <<>> ELSE <<Trace[sess].id, i + 1, e>>
        /\ (~ok => PrintT("MISMATCH " \o ToJson([id |-> Trace[sess].id, at |-> i + 1, e |-> e,
              exp |-> [r |-> "ok", gives |-> g, seen |-> seen]])))
  /\ UNCHANGED sess

Next == Consume
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
=============================================================================
