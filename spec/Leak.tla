-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What somebody who watches a computation sees: which instructions run    *)
(* and which places in memory they touch, but not the data. Two runs of    *)
(* one machine with two secrets, side by side; the machine has no secrets  *)
(* from the watcher when what is seen is the same in both.                 *)
(*                                                                         *)
(* The machine multiplies a base by a secret the way signing does: for     *)
(* each window of the secret an entry of a table is chosen and added, and  *)
(* at the end the result is brought into its lower half. A choice is made  *)
(* by touching every entry and keeping one with a mask, or by a branch at  *)
(* each entry, or by going straight to the entry. A zero window may be     *)
(* skipped. The lower half may be reached with a mask or with a branch;    *)
(* the bit that decides that branch is then given away, and two secrets    *)
(* are to be told apart by this bit and nothing else.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS N,        \* order of the group
          D, W,     \* a secret has W windows with values in 0..D-1
          Choose,   \* "mask", "branch" or "place"
          Skip,     \* whether a zero window is passed over
          Finish,   \* "mask" or "branch"
          GivenAway \* the set of facts the watcher may learn: {} or {"high"}

VARIABLES secret, run
vars == <<secret, run>>

Sides == {1, 2}
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Digit(s, i) == (s \div Pow(D, i)) % D
Entry(i, j) == (j * Pow(D, i)) % N
High(x) == 2 * x > N
Lower(x) == IF High(x) THEN N - x ELSE x

Start == [i |-> 0, j |-> 0, kept |-> 0, acc |-> 0, at |-> "window", seen |-> <<"start">>]

Init == /\ secret \in [Sides -> 0..(Pow(D, W) - 1)]
        /\ run = [a \in Sides |-> Start]

NextWindow(m) == [m EXCEPT !.i = @ + 1, !.j = 0, !.kept = 0,
                           !.at = IF m.i + 1 = W THEN "finish" ELSE "window"]

Step(m, s) ==
  LET d == Digit(s, m.i)
  IN CASE m.at = "window" /\ Skip /\ d = 0 -> [NextWindow(m) EXCEPT !.seen = <<"skip", m.i>>]
       [] m.at = "window" /\ Choose = "place" ->
            [m EXCEPT !.kept = Entry(m.i, d), !.at = "add", !.seen = <<"load", m.i, d>>]
       [] m.at = "window" -> [m EXCEPT !.at = "entry", !.seen = <<"begin", m.i>>]
       [] m.at = "entry" /\ Choose = "mask" ->
            [m EXCEPT !.kept = IF m.j = d THEN Entry(m.i, m.j) ELSE @,
                      !.j = @ + 1,
                      !.at = IF m.j + 1 = D THEN "add" ELSE "entry",
                      !.seen = <<"load", m.i, m.j>>]
       [] m.at = "entry" ->
            [m EXCEPT !.kept = IF m.j = d THEN Entry(m.i, m.j) ELSE @,
                      !.j = @ + 1,
                      !.at = IF m.j + 1 = D THEN "add" ELSE "entry",
                      !.seen = IF m.j = d THEN <<"load", m.i, m.j>> ELSE <<"jump", m.i, m.j>>]
       [] m.at = "add" -> [NextWindow(m) EXCEPT !.acc = (m.acc + m.kept) % N, !.seen = <<"add">>]
       [] m.at = "finish" -> [m EXCEPT !.acc = Lower(@), !.at = "done",
                                       !.seen = IF Finish = "branch" /\ ~High(m.acc) THEN <<"jump">> ELSE <<"negate">>]
       [] OTHER -> [m EXCEPT !.seen = <<"rest">>]

Next == /\ \E a \in Sides : run[a].at # "done"
        /\ run' = [a \in Sides |-> Step(run[a], secret[a])]
        /\ UNCHANGED secret
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Given(s) == IF "high" \in GivenAway THEN High(s % N) ELSE FALSE

\* what is seen says nothing of a secret but what is given away
Silent == Given(secret[1]) = Given(secret[2]) => run[1].seen = run[2].seen
\* and the machine is right
Right == \A a \in Sides : run[a].at = "done" => run[a].acc = Lower(secret[a] % N)
Ends == <>(\A a \in Sides : run[a].at = "done")
=============================================================================
