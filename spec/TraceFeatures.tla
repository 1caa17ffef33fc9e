---------------------------- MODULE TraceFeatures ----------------------------
(***************************************************************************)
(* Conformance of recorded builds with module Features. An event is the    *)
(* outcome of building `what` (the library alone, a program using every    *)
(* operation the configuration provides, a program without the standard    *)
(* library) with features f in a profile; or the groups of operations a     *)
(* built program found working. At the end everything required was built.  *)
(***************************************************************************)
EXTENDS Features, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[1].ev
SetOf(s) == {s[k] : k \in DOMAIN s}

Profiles == {"checked", "optimised"}
Required ==
  {<<"library", f, "checked">> : f \in SUBSET Feature}
  \cup {<<"core", f, "checked">> : f \in {{}, {"std"}}}
  \cup {<<"program", f, p>> : f \in Distinct, p \in Profiles}
  \cup {<<"freestanding", f, p>> : f \in {g \in Distinct : Freestanding(g)}, p \in Profiles}
  \cup {<<"surface", f, p>> : f \in Distinct, p \in Profiles}

VARIABLES i, done, bad
vars == <<i, done, bad>>
Init == i = 0 /\ done = {} /\ bad = FALSE

Key(e) == <<e.a.what, SetOf(e.a.f), e.a.profile>>
Ok(e) == /\ e.o.r = "ok"
         /\ Key(e) \in Required
         /\ e.a.what = "surface" => Provides(SetOf(e.a.f)) \subseteq SetOf(e.o.groups)

Consume ==
  /\ ~bad /\ i < Len(Ev)
  /\ LET e == Ev[i + 1]
     IN /\ i' = i + 1
        /\ done' = done \cup {Key(e)}
        /\ bad' = ~Ok(e)
        /\ (~Ok(e) => PrintT("MISMATCH " \o ToJson([id |-> Trace[1].id, at |-> i + 1, e |-> e,
              exp |-> [r |-> "ok", groups |-> Provides(SetOf(e.a.f))]])))

Spec == Init /\ [][Consume]_vars
Conforms == ~bad
Complete == (i = Len(Ev) /\ ~bad) => done = Required
Lattice == Monotone /\ OneTable /\ LazyNeedsStd
=============================================================================
