------------------------------ MODULE BigNat ------------------------------
(***************************************************************************)
(* The arithmetic the other modules use. Every operator is defined by its  *)
(* pure TLA+ counterpart; TLC replaces it by the Java method of the same   *)
(* name in java/BigNatOverrides.java (see MCBigNat for the agreement).     *)
(***************************************************************************)
EXTENDS BigNatPure

NatCmp(a, b) == PureCmp(a, b)
NatBits(a) == PureBits(a)
NatMod(a, m) == PureMod(a, m)
NatAddMod(a, b, m) == PureAddMod(a, b, m)
NatSubMod(a, b, m) == PureSubMod(a, b, m)
NatMulMod(a, b, m) == PureMulMod(a, b, m)
NatPowMod(a, e, m) == PurePowMod(a, e, m)
NatInvMod(a, m) == PureInvMod(a, m)
NatShr(a, k) == PureShr(a, k)

NatLt(a, b) == NatCmp(a, b) = -1
NatLe(a, b) == NatCmp(a, b) # 1
NatEq(a, b) == NatCmp(a, b) = 0
NatIsZero(a) == NatCmp(a, <<>>) = 0
NatOdd(a) == a # <<>> /\ a[Len(a)] % 2 = 1

(* The l-octet string of a TLC integer, and back (for values < 2^31). *)
OctetsOf(v, l) == [i \in 1..l |-> (IF l - i > 3 THEN 0 ELSE (v \div (256 ^ (l - i))) % 256)]
IntOf(a) == FoldLeft(LAMBDA acc, d : acc * 256 + d, 0, a)

(* Without leading zero octets. *)
Strip(a) ==
  IF IsZeroStr(a) THEN <<>>
  ELSE LET k == CHOOSE i \in DOMAIN a : a[i] # 0 /\ \A j \in 1..(i - 1) : a[j] = 0
       IN SubSeq(a, k, Len(a))
===========================================================================
