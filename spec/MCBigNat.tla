------------------------------ MODULE MCBigNat ------------------------------
(***************************************************************************)
(* The operators TLC evaluates in Java agree with their TLA+ definitions:  *)
(* exhaustively for one-octet moduli and on edge and random values at full *)
(* width. Known answers fix the pure definitions themselves.               *)
(***************************************************************************)
EXTENDS Ec, Hex, Sha256, TLC, Integers, FiniteSets, IOUtils

CONSTANTS SmallM, NRand

P256 == Unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
N256 == Unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")

Edge == { Zeros(32), Fit(<<1>>, 32), Fit(<<2>>, 32), P256, N256,
          NatSubMod(Zeros(32), <<1>>, N256), NatSubMod(Zeros(32), <<1>>, P256),
          [i \in 1..32 |-> 255], [i \in 1..32 |-> IF i = 1 THEN 128 ELSE 0],
          [i \in 1..32 |-> IF i <= 16 THEN 0 ELSE 255] }
SomeEdge == { P256, NatSubMod(Zeros(32), <<1>>, N256), [i \in 1..32 |-> 255] }
Rnd(i) == [j \in 1..32 |-> RandomElement(0..255)]

AgreeBig(a, b, m) ==
  /\ NatCmp(a, b) = PureCmp(a, b)
  /\ NatBits(a) = PureBits(a)
  /\ NatMod(a, m) = PureMod(a, m)
  /\ NatAddMod(a, b, m) = PureAddMod(a, b, m)
  /\ NatSubMod(a, b, m) = PureSubMod(a, b, m)
  /\ NatMulMod(a, b, m) = PureMulMod(a, b, m)
  /\ NatShr(a, 5) = PureShr(a, 5)
  /\ NatShr(a, 13) = PureShr(a, 13)
  /\ Unhex(PureHex(a)) = a
  /\ PureUnhex(ToHex(a)) = a
  /\ ToHex(a) = PureHex(a)

SmallInt(v) == <<v>>
AgreeSmall(a, b, m) ==
  LET x == SmallInt(a)
      y == SmallInt(b)
      z == SmallInt(m)
  IN /\ NatAddMod(x, y, z) = PureAddMod(x, y, z) /\ NatAddMod(x, y, z) = <<(a + b) % m>>
     /\ NatMulMod(x, y, z) = PureMulMod(x, y, z) /\ NatMulMod(x, y, z) = <<(a * b) % m>>
     /\ NatSubMod(x, y, z) = PureSubMod(x, y, z) /\ NatSubMod(x, y, z) = <<(a - b) % m>>
     /\ NatCmp(x, y) = PureCmp(x, y)
     /\ NatPowMod(x, y, z) = PurePowMod(x, y, z)
     /\ NatInvMod(x, z) = PureInvMod(x, z)
     /\ (a % m # 0 => NatMulMod(x, NatInvMod(x, z), z) = <<1>>)
     /\ NatMod(x, z) = PureMod(x, z)
     /\ NatShr(<<a, b>>, m % 16) = PureShr(<<a, b>>, m % 16)

Known ==
  /\ ToHex(PureSha256(<<97, 98, 99>>)) = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
  /\ ToHex(PureSha256(<<>>)) = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
  \* RFC 4231 test case 2 
  /\ ToHex(Hmac(<<74, 101, 102, 101>>,
      <<119,104,97,116,32,100,111,32,121,97,32,119,97,110,116,32,102,111,114,32,110,111,116,104,105,110,103,63>>))
       = "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
  \* RFC 6979 A.2.5-style known answer on secp256k1 (key 1, SHA-256("Satoshi Nakamoto"))
  /\ ToHex(DrbgNext(DrbgInit(Fit(<<1>>, 32),
       Sha256(<<83,97,116,111,115,104,105,32,78,97,107,97,109,111,116,111>>))).out)
       = "8f8a276c19f4149656b280621e358cce24f5f52542772691ee69063b74f15d15"

(* The group law: all pairs and multiples on y^2 = x^3 + 7 over F_43 (31 points), *)
(* and edge multiples on secp256k1.                                             *)
M43 == <<43>>
Pts43 == {<<>>} \cup {<< <<x>>, <<y>> >> : x \in 0..42, y \in 0..42}
Good43 == {q \in Pts43 : q = <<>> \/ (q[2][1] * q[2][1]) % 43 = (q[1][1] * q[1][1] * q[1][1] + 7) % 43}
AgreeEcSmall(p) ==
  /\ \A q \in Good43 : EcAdd(p, q, M43) = PureEcAdd(p, q, M43) /\ EcAdd(p, q, M43) \in Good43
  /\ \A k \in 0..63 : EcMul(<<k>>, p, M43) = PureEcMul(<<k>>, p, M43)
Gx == Unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
Gy == Unhex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
GG == <<Gx, Gy>>
AgreeEc(k) ==
  LET p == EcMul(k, GG, P256)
  IN /\ p = PureEcMul(k, GG, P256)
     /\ EcAdd(p, GG, P256) = PureEcAdd(p, GG, P256)
     /\ EcAdd(p, p, P256) = PureEcAdd(p, p, P256)
     /\ EcAdd(GG, p, P256) = EcMul(PureAdd(k, <<1>>), GG, P256)

VARIABLES c, done   \* done = FALSE first, so that the cases are evaluated in parallel
Cases ==
  [k : {"small"}, a : SmallM]
  \cup [k : {"edge"}, a : Edge]
  \cup [k : {"rnd"}, a : 1..NRand]
  \cup [k : {"inv"}, a : {Fit(<<2>>, 32)}]
  \cup [k : {"sha"}, a : {0, 1, 3, 55, 56, 63, 64, 65, 97, 119, 120, 129, 161}]
  \cup [k : {"known"}, a : {0}]
  \cup [k : {"ec43"}, a : Good43]
  \cup [k : {"ec"}, a : Edge]
  \cup [k : {"ecrnd"}, a : 1..NRand]

Init == c \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>

Holds == done =>
  CASE c.k = "small" -> \A a \in {0, 1, 2, 30, 31, 32, 42, 43, 44, 100, 128, 250, 251, 255}, b \in {0, 1, 42, 128, 255} : AgreeSmall(a, b, c.a)
    [] c.k = "edge" -> \A b \in SomeEdge : AgreeBig(c.a, b, P256) /\ AgreeBig(c.a, b, N256)
    [] c.k = "rnd" -> LET a == Rnd(c.a) IN AgreeBig(a, Rnd(0), N256) /\ AgreeBig(a, Rnd(1), P256)
    [] c.k = "inv" -> /\ \A m \in {<<255,255,255,255,255,197>>, <<255,255,255,251>>} :   \* 2^48 - 59, 2^32 - 5
                           NatInvMod(c.a, m) = PureInvMod(c.a, m)
                      /\ NatMulMod(c.a, NatInvMod(c.a, P256), P256) = Fit(<<1>>, 32)
    [] c.k = "sha" -> LET m == [i \in 1..c.a |-> (i * i + 7 * c.a) % 256] IN Sha256(m) = PureSha256(m)
    [] c.k = "ec43" -> AgreeEcSmall(c.a)
    [] c.k = "ec" -> AgreeEc(c.a)
    [] c.k = "ecrnd" -> AgreeEc(Rnd(c.a))
    [] OTHER -> Known
=============================================================================
