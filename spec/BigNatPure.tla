---------------------------- MODULE BigNatPure ----------------------------
(***************************************************************************)
(* Natural numbers of arbitrary size as big-endian octet strings           *)
(* (sequences over 0..255, leading zeros allowed), and modular arithmetic  *)
(* on them, defined from scratch in TLA+.                                  *)
(*                                                                         *)
(* These definitions are the meaning of the operators of module BigNat.    *)
(* TLC evaluates BigNat through a Java class (java.math.BigInteger) so     *)
(* that 256-bit curve arithmetic is fast; MCBigNat checks that the two     *)
(* agree.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Octet == 0..255

Zeros(l) == [i \in 1..l |-> 0]

(* a as an octet string of length l: drops or adds leading octets. *)
Fit(a, l) ==
  [i \in 1..l |-> LET j == Len(a) - l + i IN IF j >= 1 THEN a[j] ELSE 0]

MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

IsZeroStr(a) == \A i \in DOMAIN a : a[i] = 0

(* -1, 0 or 1 *)
PureCmp(a, b) ==
  LET l == MaxLen(a, b)
      x == Fit(a, l)
      y == Fit(b, l)
      d == {i \in 1..l : x[i] # y[i]}
  IN IF d = {} THEN 0
     ELSE LET k == CHOOSE i \in d : \A j \in d : i <= j
          IN IF x[k] < y[k] THEN -1 ELSE 1

PureLt(a, b) == PureCmp(a, b) = -1

(* a + b, one octet longer than the longer argument *)
PureAdd(a, b) ==
  LET l == MaxLen(a, b)
      x == Fit(a, l)
      y == Fit(b, l)
      step(acc, i) ==     \* acc = <<carry, digits>>; i counts from the right
        LET k == l - i + 1
            s == x[k] + y[k] + acc[1]
        IN <<s \div 256, <<s % 256>> \o acc[2]>>
      r == FoldLeft(step, <<0, <<>>>>, [i \in 1..l |-> i])
  IN <<r[1]>> \o r[2]

(* a - b for a >= b, as long as the longer argument *)
PureSub(a, b) ==
  LET l == MaxLen(a, b)
      x == Fit(a, l)
      y == Fit(b, l)
      step(acc, i) ==
        LET k == l - i + 1
            s == x[k] - y[k] - acc[1]
        IN IF s < 0 THEN <<1, <<s + 256>> \o acc[2]>>
                    ELSE <<0, <<s>> \o acc[2]>>
  IN FoldLeft(step, <<0, <<>>>>, [i \in 1..l |-> i])[2]

(* The bits of a, most significant first. *)
PureBits(a) ==
  [i \in 1..(8 * Len(a)) |->
     (a[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]

(* 2x + bit mod m for x < m *)
DoublePlus(x, bit, m) ==
  LET d == PureAdd(x, x)
      e == IF bit = 1 THEN PureAdd(d, <<1>>) ELSE d
      f == IF PureLt(e, m) THEN e ELSE PureSub(e, m)
      g == IF PureLt(f, m) THEN f ELSE PureSub(f, m)
  IN Fit(g, Len(m))

(* a mod m (m > 0), as long as m *)
PureMod(a, m) ==
  LET step(x, bit) == DoublePlus(x, bit, m)
  IN FoldLeft(step, Zeros(Len(m)), PureBits(a))

PureAddMod(a, b, m) == PureMod(PureAdd(a, b), m)

PureSubMod(a, b, m) ==
  LET x == PureMod(a, m)
      y == PureMod(b, m)
  IN IF PureLt(x, y) THEN Fit(PureSub(PureAdd(x, m), y), Len(m))
                     ELSE Fit(PureSub(x, y), Len(m))

PureMulMod(a, b, m) ==
  LET x == PureMod(a, m)
      step(acc, bit) ==
        LET d == DoublePlus(acc, 0, m)
            e == IF bit = 1 THEN PureAdd(d, x) ELSE d
        IN Fit(IF PureLt(e, m) THEN e ELSE PureSub(e, m), Len(m))
  IN FoldLeft(step, Zeros(Len(m)), PureBits(b))

PurePowMod(a, e, m) ==
  LET x == PureMod(a, m)
      step(acc, bit) ==
        LET s == PureMulMod(acc, acc, m)
        IN IF bit = 1 THEN PureMulMod(s, x, m) ELSE s
  IN FoldLeft(step, PureMod(<<1>>, m), PureBits(e))

(* The inverse modulo a prime m; 0 is mapped to 0. *)
PureInvMod(a, m) == PurePowMod(a, PureSub(m, <<2>>), m)

(* floor(a / 2^k), same length *)
PureShr(a, k) ==
  LET b == PureBits(a)
      n == Len(b)
      bit(i) == IF i - k >= 1 THEN b[i - k] ELSE 0   \* i-th bit of the result
  IN [j \in 1..Len(a) |->
        LET o == 8 * (j - 1)
        IN 128 * bit(o + 1) + 64 * bit(o + 2) + 32 * bit(o + 3)
           + 16 * bit(o + 4) + 8 * bit(o + 5) + 4 * bit(o + 6)
           + 2 * bit(o + 7) + bit(o + 8)]
===========================================================================
