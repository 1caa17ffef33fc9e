------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The cursor over an octet string with which DER is taken apart. Its      *)
(* state is the string b and the number `at` of octets consumed. A call    *)
(* yields [ok, val, at]: whether it succeeds, what it returns (as text)    *)
(* and how far the cursor is then. read, peek, peek_slice and skip leave   *)
(* the cursor alone when they fail; where it is after one of the other     *)
(* calls has failed is not specified.                                      *)
(***************************************************************************)
EXTENDS Curve, Hex, TLC

DerG == INSTANCE Der

RErr == "InvalidSignature"
Yes(val, at) == [ok |-> TRUE, val |-> val, at |-> at, known |-> TRUE]
No(at) == [ok |-> FALSE, val |-> RErr, at |-> at, known |-> TRUE]
(* a negative INTEGER: nothing is specified from there on *)
Unknown == [ok |-> TRUE, val |-> "", at |-> 0, known |-> FALSE]

Left(b, at) == Len(b) - at
(* a length octet string as a number; -1 when it is beyond any input *)
Count(o) == LET s == Strip(o) IN IF Len(s) > 3 THEN -1 ELSE IntOf(s)

(* DER: short form, or the shortest long form of a length that still fits *)
ReadLen(b, at) ==
  IF Left(b, at) < 1 THEN No(at)
  ELSE LET h == b[at + 1]
           k == h - 128
       IN IF h < 128 THEN Yes(ToString(h), at + 1)
          ELSE IF k = 0 \/ k = 127 \/ Left(b, at + 1) < k THEN No(at)
          ELSE LET o == SubSeq(b, at + 2, at + 1 + k)
               IN IF o[1] = 0 \/ Count(o) < 128 \/ Count(o) > Left(b, at + 1 + k) THEN No(at)
                  ELSE Yes(ToString(Count(o)), at + 1 + k)

LenOf(b, at) ==      \* the same, as a number
  LET x == ReadLen(b, at)
      h == b[at + 1]
  IN [ok |-> x.ok, at |-> x.at,
      n |-> IF ~x.ok THEN 0 ELSE IF h < 128 THEN h ELSE IntOf(SubSeq(b, at + 2, x.at))]

ReadInteger(b, at) ==
  IF Left(b, at) < 1 \/ b[at + 1] # 2 THEN No(at)
  ELSE LET l == LenOf(b, at + 1)
       IN IF ~l.ok \/ l.n = 0 \/ l.n > Left(b, l.at) THEN No(at)
          ELSE LET c == SubSeq(b, l.at + 1, l.at + l.n)
               IN IF l.n > 1 /\ c[1] \in {0, 255} /\ c[2] < 128 THEN No(at)
                  ELSE IF c[1] >= 128 THEN Unknown
                  ELSE IF Len(Strip(c)) > L THEN No(at)
                  ELSE Yes(ToHex(DerG!Component(c)), l.at + l.n)

ReadIntegerLax(b, at) ==
  LET x == DerG!LaxIntAt(b, at)
  IN IF ~x.ok THEN No(at)
     ELSE Yes(ToHex(DerG!Component(SubSeq(b, x.from + 1, x.from + x.len))), x.from + x.len)

(* the length alone is what an INTEGER with this length would have *)
ReadLenLax(b, at) ==
  LET x == DerG!LaxIntAt(<<2>> \o SubSeq(b, at + 1, Len(b)), 0)
  IN IF x.ok THEN Yes(ToString(x.len), at + x.from - 1) ELSE No(at)

ReadSeqLenLax(b, at) ==
  IF Left(b, at) < 1 THEN No(at)
  ELSE LET h == b[at + 1]
       IN IF h < 128 THEN Yes(ToString(h), at + 1)
          ELSE IF Left(b, at + 1) < h - 128 THEN No(at)
          ELSE Yes(ToString(h - 128), at + 1 + (h - 128))

(* A call's number n is counted in octets; below zero it stands for one near the
   largest the machine has, which nothing is left for. *)
Has(b, at, k) == k >= 0 /\ k <= Left(b, at)

ReaderCall(c, b, at) ==
  CASE c.op = "remaining" -> Yes(ToString(Left(b, at)), at)
    [] c.op = "read" -> IF Left(b, at) < 1 THEN No(at) ELSE Yes(ToString(b[at + 1]), at + 1)
    [] c.op = "peek" -> IF c.n < 0 \/ ~Has(b, at, c.n + 1) THEN No(at) ELSE Yes(ToString(b[at + c.n + 1]), at)
    [] c.op = "peek_slice" -> IF ~Has(b, at, c.n) THEN No(at) ELSE Yes(ToHex(SubSeq(b, at + 1, at + c.n)), at)
    [] c.op = "skip" -> IF ~Has(b, at, c.n) THEN No(at) ELSE Yes("", at + c.n)
    [] c.op = "sequence" -> IF Left(b, at) < 1 \/ b[at + 1] # 48 THEN No(at) ELSE Yes("", at + 1)
    [] c.op = "len" -> ReadLen(b, at)
    [] c.op = "integer" -> ReadInteger(b, at)
    [] c.op = "seq_len_lax" -> ReadSeqLenLax(b, at)
    [] c.op = "len_lax" -> ReadLenLax(b, at)
    [] c.op = "integer_lax" -> ReadIntegerLax(b, at)

Restartable(op) == op \in {"read", "peek", "peek_slice", "skip", "remaining"}

(* [res, all]: what the calls return; all is FALSE when only this prefix is specified *)
RECURSIVE ReadAll(_, _, _, _)
ReadAll(calls, i, b, at) ==
  IF i > Len(calls) THEN [res |-> <<>>, all |-> TRUE]
  ELSE LET x == ReaderCall(calls[i], b, at)
       IN IF ~x.known THEN [res |-> <<>>, all |-> FALSE]
          ELSE IF ~x.ok /\ ~Restartable(calls[i].op) THEN [res |-> <<x.val>>, all |-> TRUE]
          ELSE LET rest == ReadAll(calls, i + 1, b, x.at)
               IN [res |-> <<x.val>> \o rest.res, all |-> rest.all]

ReaderOk(a, o) ==
  LET want == ReadAll(a.calls, 1, Unhex(a.b), 0)
  IN /\ o.r = "ok"
     /\ IF want.all THEN o.res = want.res
        ELSE Len(o.res) >= Len(want.res) /\ SubSeq(o.res, 1, Len(want.res)) = want.res
=============================================================================
