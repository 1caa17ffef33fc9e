-------------------------------- MODULE Sec1 --------------------------------
(***************************************************************************)
(* Public-key octet encodings. Decoders return [r, p]: r is "ok" or the    *)
(* name of the error, p the point.                                         *)
(***************************************************************************)
EXTENDS Curve

Tag(p) == IF NatOdd(p[2]) THEN 3 ELSE 2
EncodeFull(p) == <<4>> \o p[1] \o p[2]
EncodeCompressed(p) == <<Tag(p)>> \o p[1]

KeyErr(e) == [r |-> e, p |-> Inf]
KeyOk(p) == [r |-> "ok", p |-> p]

DecodeXY(x, y) ==
  IF IsFieldEnc(x) /\ IsFieldEnc(y) /\ OnCurve(x, y) THEN KeyOk(<<x, y>>)
  ELSE KeyErr("InvalidPublicKey")

DecodeFull(b) ==      \* Len(b) = 2L + 1
  LET x == SubSeq(b, 2, L + 1)
      y == SubSeq(b, L + 2, 2 * L + 1)
  IN CASE b[1] = 4 -> DecodeXY(x, y)
       [] b[1] = 6 -> IF NatOdd(y) THEN KeyErr("InvalidPublicKey") ELSE DecodeXY(x, y)
       [] b[1] = 7 -> IF NatOdd(y) THEN DecodeXY(x, y) ELSE KeyErr("InvalidPublicKey")
       [] OTHER -> KeyErr("InvalidPublicKey")

DecodeCompressed(b) ==    \* Len(b) = L + 1
  LET x == SubSeq(b, 2, L + 1)
  IN IF b[1] \in {2, 3} /\ IsFieldEnc(x) /\ Liftable(x)
     THEN KeyOk(Lift(x, b[1] = 3))
     ELSE KeyErr("InvalidPublicKey")

DecodeRaw(b) == DecodeXY(SubSeq(b, 1, L), SubSeq(b, L + 1, 2 * L))

(* fmt: "none" means any of the three formats, told apart by the length *)
DecodeSlice(b, fmt) ==
  IF Len(b) = 2 * L + 1 /\ fmt \in {"none", "full"} THEN DecodeFull(b)
  ELSE IF Len(b) = L + 1 /\ fmt \in {"none", "comp"} THEN DecodeCompressed(b)
  ELSE IF Len(b) = 2 * L /\ fmt \in {"none", "raw"} THEN DecodeRaw(b)
  ELSE KeyErr("InvalidInputLength")
=============================================================================
