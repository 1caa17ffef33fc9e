-------------------------------- MODULE Der --------------------------------
(***************************************************************************)
(* DER encodings of ECDSA signatures: the canonical encoder, the strict    *)
(* grammar and the historical permissive one. Written as grammars (which   *)
(* strings are in the language, and what they denote), not as decoders.    *)
(* Results are [r, rr, ss]: r is "ok" or the error's name.                 *)
(***************************************************************************)
EXTENDS Curve

DerErr == [r |-> "InvalidSignature", rr |-> Zero, ss |-> Zero]
DerOk(a, b) == [r |-> "ok", rr |-> a, ss |-> b]

(* The integer content of a scalar: minimal, first bit clear. *)
IntContent(a) ==
  LET s == Strip(a)
  IN IF s = <<>> THEN <<0>> ELSE IF s[1] >= 128 THEN <<0>> \o s ELSE s
DerInt(a) == LET c == IntContent(a) IN <<2, Len(c)>> \o c
EncodeDer(r, s) == LET b == DerInt(r) \o DerInt(s) IN <<48, Len(b)>> \o b

(* A component: an unsigned octet string, 0 when not below N. *)
Component(c) ==
  LET s == Strip(c) IN IF Len(s) <= L /\ NatLt(s, N) THEN Fit(s, L) ELSE Zero

(* ---- strict ------------------------------------------------------------- *)
(* One INTEGER with short-form length at offset i of b (offsets are counted  *)
(* from 0): its content is b[i+2 .. i+1+len].                                *)
StrictIntAt(b, i) ==
  /\ Len(b) >= i + 3
  /\ b[i + 1] = 2
  /\ LET n == b[i + 2]
     IN /\ n >= 1 /\ n < 128
        /\ Len(b) >= i + 2 + n
        /\ b[i + 3] < 128                                        \* not negative
        /\ (n > 1 /\ b[i + 3] = 0) => b[i + 4] >= 128            \* minimal
        /\ (IF b[i + 3] = 0 THEN n - 1 ELSE n) <= L              \* significant octets
IntEnd(b, i) == i + 2 + b[i + 2]
IntOctets(b, i) == SubSeq(b, i + 3, i + 2 + b[i + 2])

IsStrictDer(b) ==
  /\ Len(b) >= 2 /\ b[1] = 48 /\ b[2] < 128 /\ b[2] = Len(b) - 2
  /\ StrictIntAt(b, 2)
  /\ StrictIntAt(b, IntEnd(b, 2))
  /\ IntEnd(b, IntEnd(b, 2)) = Len(b)

DecodeStrict(b) ==
  IF IsStrictDer(b)
  THEN DerOk(Component(IntOctets(b, 2)), Component(IntOctets(b, IntEnd(b, 2))))
  ELSE DerErr

(* ---- lax ----------------------------------------------------------------- *)
(* The header of the SEQUENCE: any length octet; in long form its low seven   *)
(* bits say how many octets follow, which are skipped. Value: the offset      *)
(* after it, or -1.                                                           *)
LaxSeqEnd(b) ==
  IF Len(b) < 2 \/ b[1] # 48 THEN -1
  ELSE IF b[2] < 128 THEN 2
  ELSE IF 2 + (b[2] - 128) > Len(b) THEN -1
  ELSE 2 + (b[2] - 128)

(* One INTEGER at offset i: [ok, from, len]. Lengths whose octets do not fit  *)
(* into a TLC integer are larger than any input.                              *)
NoInt == [ok |-> FALSE, from |-> 0, len |-> 0]
LaxIntAt(b, i) ==
  IF i < 0 \/ Len(b) < i + 2 \/ b[i + 1] # 2 THEN NoInt
  ELSE LET h == b[i + 2]
       IN IF h < 128
          THEN IF i + 2 + h <= Len(b) THEN [ok |-> TRUE, from |-> i + 2, len |-> h] ELSE NoInt
          ELSE IF Len(b) < i + 2 + (h - 128) THEN NoInt
          ELSE LET lo == Strip(SubSeq(b, i + 3, i + 2 + (h - 128)))
                   from == i + 2 + (h - 128)
               IN IF Len(lo) > 3 THEN NoInt
                  ELSE IF from + IntOf(lo) > Len(b) THEN NoInt
                  ELSE [ok |-> TRUE, from |-> from, len |-> IntOf(lo)]

DecodeLax(b) ==
  LET i == LaxSeqEnd(b)
      r == LaxIntAt(b, i)
      s == IF r.ok THEN LaxIntAt(b, r.from + r.len) ELSE NoInt
      c(x) == Component(SubSeq(b, x.from + 1, x.from + x.len))
  IN IF i >= 0 /\ r.ok /\ s.ok THEN DerOk(c(r), c(s)) ELSE DerErr
=============================================================================
