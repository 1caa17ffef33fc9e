------------------------------- MODULE GenApi -------------------------------
(***************************************************************************)
(* Histories of the library drawn from its specification. Every step picks *)
(* a call and chooses its arguments from the state the specification is in *)
(* (negations, inverses and sums of stored values, encodings of stored     *)
(* keys and signatures, and damaged versions of them), so that coincidences*)
(* and near misses are common. TLC in simulation mode prints each history; *)
(* it is executed by the library and the recorded trace validated with     *)
(* MCTraceApi.                                                             *)
(***************************************************************************)
EXTENDS Api, Secp256k1, TLC, Json, Sequences, FiniteSets

CONSTANTS Depth, Theme

VARIABLES st, hist
vars == <<st, hist>>

Use == 0..3                       \* slots in use
Pick(S) == RandomElement(S)
Chance(k) == RandomElement(1..k) = 1
Held(m) == {i \in Use : m[i] # <<>>}
HeldOr0(m) == IF Held(m) = {} THEN {0} ELSE Held(m)
NZ == {i \in Use : st.sk[i] # <<>> /\ ~NatIsZero(st.sk[i][1])}
SecOr0 == IF NZ = {} THEN {0} ELSE NZ
Rand(l) == [i \in 1..l |-> RandomElement(0..255)]
Small(v) == OctetsOf(v, L)
Full256 == [i \in 1..L |-> 255]

(* ---- octet strings near a given one ---------------------------------------- *)
DamageAt(b, i, c) ==
  CASE c = 1 -> [b EXCEPT ![i] = (@ + 1) % 256]
    [] c = 2 -> [b EXCEPT ![i] = (@ + 255) % 256]
    [] c = 3 -> [b EXCEPT ![i] = (@ + 128) % 256]
    [] c = 4 -> [b EXCEPT ![i] = RandomElement(0..255)]
    [] c = 5 -> SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
    [] c = 6 -> SubSeq(b, 1, i) \o <<RandomElement({0, 1, 2, 48, 127, 128, 129, 130, 255})>> \o SubSeq(b, i + 1, Len(b))
    [] c = 7 -> SubSeq(b, 1, i)
    [] c = 8 -> b \o Rand(RandomElement(1..3))
    [] OTHER -> [b EXCEPT ![i] = 0]
Damage(b) == IF b = <<>> THEN <<0>> ELSE DamageAt(b, RandomElement(1..Len(b)), RandomElement(1..9))
Damage4(b) == IF b = <<>> THEN <<0>> ELSE DamageAt(b, RandomElement(1..Len(b)), RandomElement(1..4))
Maybe(b, k) == IF Chance(k) THEN Damage(b) ELSE b
Resize(b, l) == IF Len(b) >= l THEN SubSeq(b, 1, l) ELSE b \o [i \in 1..(l - Len(b)) |-> 0]

(* ---- scalars and other 32-octet strings, from the state ---------------------- *)
Stored ==
  {st.sk[i][1] : i \in Held(st.sk)} \cup {st.ms[i][1] : i \in Held(st.ms)}
  \cup {st.sg[i][1].r : i \in Held(st.sg)} \cup {st.sg[i][1].s : i \in Held(st.sg)}
  \cup {st.pk[i][1][1] : i \in Held(st.pk)} \cup {One}
From == SRed(RandomElement(Stored))
NonZero(v) == IF NatIsZero(v) THEN One ELSE v

ScalarCase(c) ==
  CASE c \in 1..3 -> SRed(Rand(L))
    [] c = 4 -> Small(RandomElement(0..7))
    [] c = 5 -> SNeg(Small(RandomElement(0..7)))
    [] c = 6 -> SAdd(HalfN, Small(RandomElement(0..3)))
    [] c = 7 -> SSub(HalfN, Small(RandomElement(0..3)))
    [] c \in {8, 9} -> SNeg(From)
    [] c = 10 -> SInv(NonZero(From))
    [] c \in {11, 12} -> From
    [] c = 13 -> SAdd(From, From)
    [] c = 14 -> SSub(From, From)
    [] c = 15 -> SMul(From, From)
    [] c = 16 -> SNeg(SInv(NonZero(From)))
    [] c = 17 -> SAdd(From, Small(RandomElement(0..2)))
    [] OTHER -> SRed(NatShr(Full256, RandomElement(0..255)))
Scal == ScalarCase(RandomElement(1..18))
NZScal == NonZero(Scal)

Bytes32Case(c) ==
  CASE c \in 1..6 -> Scal
    [] c = 7 -> Fit(PureAdd(N, Small(RandomElement(0..3))), L)
    [] c = 8 -> Full256
    [] c = 9 -> Fit(PureAdd(P, Small(RandomElement(0..3))), L)
    [] OTHER -> Rand(L)
Bytes32 == Bytes32Case(RandomElement(1..10))

APoint ==
  IF Held(st.pk) # {} /\ ~Chance(3) THEN LET q == st.pk[RandomElement(Held(st.pk))][1] IN IF Chance(3) THEN PNeg(q) ELSE q
  ELSE GMul(NZScal)
Hybrid(q) == <<IF NatOdd(q[2]) THEN 7 ELSE 6>> \o q[1] \o q[2]
KeyOctets(q, c) ==
  CASE c = 1 -> Keys!EncodeFull(q)
    [] c = 2 -> Keys!EncodeCompressed(q)
    [] c = 3 -> q[1] \o q[2]
    [] OTHER -> Hybrid(q)
SomeKey == KeyOctets(APoint, RandomElement(1..4))
Sig == IF Held(st.sg) # {} /\ ~Chance(4) THEN st.sg[RandomElement(Held(st.sg))][1] ELSE [r |-> Scal, s |-> Scal]
SigNear(g, c) ==
  CASE c = 1 -> [g EXCEPT !.s = SNeg(@)]
    [] c = 2 -> [g EXCEPT !.r = SNeg(@)]
    [] c = 3 -> [r |-> g.s, s |-> g.r]
    [] c = 4 -> [g EXCEPT !.s = SAdd(@, One)]
    [] c = 5 -> [g EXCEPT !.r = Zero]
    [] c = 6 -> [g EXCEPT !.s = Zero]
    [] c = 7 -> [g EXCEPT !.s = Scal]
    [] OTHER -> g
NearSig == SigNear(Sig, RandomElement(1..12))
SigBytes ==
  LET g == NearSig
      up(v) == IF NatLt(PureAdd(v, N), <<1>> \o Zero) /\ Chance(3) THEN Fit(PureAdd(v, N), L) ELSE v
  IN up(g.r) \o up(g.s)
(* permissive variants of a DER integer: padded, long-form length *)
LaxInt(v) ==
  LET c == DerS!IntContent(v)
      d == [i \in 1..RandomElement({0, 0, 1, 3}) |-> 0] \o c
      n == Len(d)
      ln == CASE RandomElement(1..4) = 1 -> <<129, n>>
              [] RandomElement(1..4) = 1 -> <<131, 0, 0, n>>
              [] OTHER -> <<n>>
  IN <<2>> \o ln \o d
LaxSig ==
  LET g == NearSig
      b == LaxInt(g.r) \o LaxInt(g.s)
      n == Len(b)
      ln == CASE RandomElement(1..3) = 1 -> <<129, RandomElement({n, 0, 255})>>
              [] RandomElement(1..3) = 1 -> <<RandomElement({n, 0, 127})>>
              [] OTHER -> <<130, 1, 2>>
  IN <<48>> \o ln \o b
DerOf == LET g == NearSig IN DerS!EncodeDer(g.r, g.s)

Ascii(b) == [i \in DOMAIN b |-> b[i] % 128]
Text == Encode64(Maybe(Keys!EncodeFull(APoint), 4))
Ctx(z) == IF Chance(2) THEN "static" ELSE "boxed"
U(z) == RandomElement(Use)
\* (an operator with a parameter: TLC would evaluate a constant only once)

(* ---- calls ---------------------------------------------------------------------- *)
KeyCalls == {"sk_parse", "sk_parse_slice", "sk_from_scalar", "sk_default", "sk_ser", "sk_hex", "sk_scalar",
             "sk_inv", "sk_copy", "sk_tadd", "sk_tmul", "sk_is_zero", "sk_eq", "sk_clear",
             "pk_derive", "pk_tadd", "pk_tmul", "pk_combine", "pk_eq", "pk_copy", "pk_ser", "pk_serc", "pk_affine"}
CodecCalls == {"pk_parse", "pk_parse_comp", "pk_parse_slice", "pk_json", "pk_bin", "pk_from_json", "pk_from_bin",
               "pk_from_affine", "pk_copy", "pk_eq", "pk_ser", "pk_serc", "pk_affine", "sk_parse", "pk_derive"}
SigCalls == {"sg_parse_std", "sg_parse_ovf", "sg_std_slice", "sg_ovf_slice", "sg_raw", "sg_copy", "sg_der",
             "sg_lax", "sg_ser", "sg_ser_der", "sg_norm", "sg_eq", "ms_parse", "ms_slice", "ri_parse", "ri_rpc",
             "sk_parse", "sign"}
UseCalls == {"sign", "sign_raw", "verify", "recover", "ecdh", "ms_parse", "sk_parse", "pk_derive", "sg_norm", "sg_raw",
             "ri_parse", "sk_inv", "pk_eq", "sg_copy", "verify_own", "recover_own"}
Calls(t) ==
  CASE t = "keys" -> KeyCalls [] t = "codecs" -> CodecCalls [] t = "sigs" -> SigCalls [] t = "use" -> UseCalls
    [] OTHER -> KeyCalls \cup CodecCalls \cup SigCalls \cup UseCalls

Args(op) ==
  CASE op = "sk_parse" -> [d |-> U(0), b |-> ToHex(Bytes32)]
    [] op = "sk_parse_slice" -> [d |-> U(0), b |-> ToHex(Maybe(Bytes32, 3))]
    [] op = "sk_from_scalar" -> [d |-> U(0), b |-> ToHex(Scal)]
    [] op = "sk_default" -> [d |-> U(0)]
    [] op \in {"sk_ser", "sk_hex", "sk_scalar", "sk_is_zero", "sk_clear"} -> [k |-> Pick(HeldOr0(st.sk))]
    [] op = "sk_inv" -> [k |-> Pick(SecOr0), d |-> U(0)]
    [] op = "sk_copy" -> [k |-> Pick(HeldOr0(st.sk)), d |-> U(0)]
    [] op \in {"sk_tadd", "sk_tmul", "sk_eq"} -> [k |-> Pick(HeldOr0(st.sk)), t |-> Pick(HeldOr0(st.sk))]
    [] op = "pk_derive" -> [k |-> Pick(SecOr0), d |-> U(0), ctx |-> Ctx(0)]
    [] op \in {"pk_tadd", "pk_tmul"} -> [p |-> Pick(HeldOr0(st.pk)), t |-> Pick(HeldOr0(st.sk)), ctx |-> Ctx(0)]
    [] op = "pk_combine" -> [ps |-> [i \in 1..RandomElement(0..4) |-> RandomElement(HeldOr0(st.pk))], d |-> U(0)]
    [] op = "pk_eq" -> [p |-> Pick(HeldOr0(st.pk)), q |-> Pick(HeldOr0(st.pk))]
    [] op \in {"pk_copy", "pk_affine"} -> [p |-> Pick(HeldOr0(st.pk)), d |-> U(0)]
    [] op \in {"pk_ser", "pk_serc", "pk_json", "pk_bin"} -> [p |-> Pick(HeldOr0(st.pk))]
    [] op = "pk_parse" ->
         LET b == KeyOctets(APoint, RandomElement({1, 4})) IN [d |-> U(0), b |-> ToHex(IF Chance(3) THEN Damage4(b) ELSE b)]
    [] op = "pk_parse_comp" ->
         LET b == Keys!EncodeCompressed(APoint) IN [d |-> U(0), b |-> ToHex(IF Chance(3) THEN Damage4(b) ELSE b)]
    [] op = "pk_parse_slice" ->
         [d |-> U(0), b |-> ToHex(Maybe(SomeKey, 3)), fmt |-> RandomElement({"none", "none", "full", "comp", "raw"})]
    [] op = "pk_from_json" -> [d |-> U(0), t |-> ToHex(Ascii(Maybe(Text, 4)))]
    [] op = "pk_from_bin" -> [d |-> U(0), b |-> ToHex(Maybe(KeyOctets(APoint, RandomElement({1, 1, 2, 3, 4})), 5))]
    [] op = "pk_from_affine" ->
         LET q == APoint
             z == Chance(5)
             xx == IF Chance(5) THEN Damage4(q[1]) ELSE q[1]
         IN [d |-> U(0), x |-> ToHex(xx), y |-> ToHex(q[2]), inf |-> z, rep |-> RandomElement(0..3)]
    [] op \in {"sg_parse_std", "sg_parse_ovf"} -> [d |-> U(0), b |-> ToHex(SigBytes)]
    [] op \in {"sg_std_slice", "sg_ovf_slice"} -> [d |-> U(0), b |-> ToHex(Maybe(SigBytes, 3))]
    [] op = "sg_raw" -> LET g == NearSig IN [d |-> U(0), r |-> ToHex(g.r), s |-> ToHex(g.s)]
    [] op = "sg_copy" -> [g |-> Pick(HeldOr0(st.sg)), d |-> U(0)]
    [] op = "sg_der" -> [d |-> U(0), b |-> ToHex(IF Chance(6) THEN LaxSig ELSE Maybe(DerOf, 2))]
    [] op = "sg_lax" -> [d |-> U(0), b |-> ToHex(IF Chance(2) THEN Maybe(LaxSig, 3) ELSE Maybe(DerOf, 2))]
    [] op \in {"sg_ser", "sg_ser_der", "sg_norm"} -> [g |-> Pick(HeldOr0(st.sg))]
    [] op = "sg_eq" -> [g |-> Pick(HeldOr0(st.sg)), h |-> Pick(HeldOr0(st.sg))]
    [] op = "ms_parse" -> [d |-> U(0), b |-> ToHex(Bytes32)]
    [] op = "ms_slice" -> [d |-> U(0), b |-> ToHex(Maybe(Bytes32, 3))]
    [] op = "ri_parse" -> [d |-> U(0), n |-> RandomElement(0..5)]
    [] op = "ri_rpc" -> [d |-> U(0), n |-> RandomElement({0, 3, 26, 27, 28, 29, 30, 31, 255})]
    [] op = "sign" -> [k |-> Pick(SecOr0), m |-> Pick(HeldOr0(st.ms)), g |-> U(0), i |-> U(0), ctx |-> Ctx(0)]
    [] op = "sign_raw" -> [k |-> Pick(SecOr0), m |-> Pick(HeldOr0(st.ms)), g |-> U(0), i |-> U(0), nonce |-> ToHex(NZScal), ctx |-> Ctx(0)]
    [] op = "verify" -> [g |-> Pick(HeldOr0(st.sg)), m |-> Pick(HeldOr0(st.ms)), p |-> Pick(HeldOr0(st.pk)), ctx |-> Ctx(0)]
    [] op = "recover" -> [g |-> Pick(HeldOr0(st.sg)), m |-> Pick(HeldOr0(st.ms)), i |-> Pick(HeldOr0(st.ri)), d |-> U(0), ctx |-> Ctx(0)]
    [] op = "ecdh" -> [p |-> Pick(HeldOr0(st.pk)), k |-> Pick(HeldOr0(st.sk)), dig |-> RandomElement({"sha256", "id33"}), ctx |-> Ctx(0)]
    [] OTHER -> [x |-> 0]

(* calls outside the contract are not made: keys of zero derive, invert and sign nothing *)
Allowed(op, a) ==
  op \in {"pk_derive", "sk_inv", "sign", "sign_raw"} => (st.sk[a.k] # <<>> /\ ~NatIsZero(st.sk[a.k][1]))

(* sequences of calls that belong together: sign, then check with the signer's key *)
Own(k, m, p) ==
  << [op |-> "pk_derive", a |-> [k |-> k, d |-> p, ctx |-> Ctx(0)]],
     [op |-> "sign", a |-> [k |-> k, m |-> m, g |-> 0, i |-> 0, ctx |-> Ctx(0)]],
     [op |-> "verify", a |-> [g |-> 0, m |-> m, p |-> p, ctx |-> Ctx(0)]],
     [op |-> "recover", a |-> [g |-> 0, m |-> m, i |-> 0, d |-> 3, ctx |-> Ctx(0)]],
     [op |-> "pk_eq", a |-> [p |-> p, q |-> 3]] >>

Do(calls) ==
  /\ st' = FoldLeft(LAMBDA s, c : Expect(c.op, c.a, s).st, st, calls)
  /\ hist' = hist \o calls

Step ==
  \E op \in {RandomElement(Calls(Theme))} :
    IF op \in {"verify_own", "recover_own"}
    THEN NZ # {} /\ Held(st.ms) # {} /\
         \E k \in {RandomElement(SecOr0)}, m \in {RandomElement(HeldOr0(st.ms))}, p \in {U(0)} : \E c \in {Own(k, m, p)} : Do(c)
    ELSE \E a \in {Args(op)} :
           IF Allowed(op, a) THEN Do(<<[op |-> op, a |-> a]>>) ELSE UNCHANGED vars

Start(z) ==
  LET k == [i \in 0..1 |-> NonZero(SRed(Rand(L)))]
  IN << [op |-> "sk_parse", a |-> [d |-> 0, b |-> ToHex(k[0])]],
        [op |-> "sk_parse", a |-> [d |-> 1, b |-> ToHex(k[1])]],
        [op |-> "pk_derive", a |-> [k |-> 0, d |-> 0, ctx |-> "static"]],
        [op |-> "pk_derive", a |-> [k |-> 1, d |-> 1, ctx |-> "static"]],
        [op |-> "ms_parse", a |-> [d |-> 0, b |-> ToHex(Rand(L))]],
        [op |-> "sign", a |-> [k |-> 0, m |-> 0, g |-> 0, i |-> 0, ctx |-> "static"]],
        [op |-> "ri_parse", a |-> [d |-> 1, n |-> 1]] >>

Init == st = EmptyStore /\ hist = <<>>
Next ==
  IF hist = <<>> THEN \E c \in {Start(0)} : Do(c)
  ELSE IF Len(hist) < Depth THEN Step
  ELSE /\ hist[Len(hist)].op # "dump"
       /\ PrintT("HIST " \o ToJson(Append(hist, [op |-> "dump", a |-> [x |-> 0]])))
       /\ hist' = Append(hist, [op |-> "dump", a |-> [x |-> 0]])
       /\ UNCHANGED st
Spec == Init /\ [][Next]_vars
=============================================================================
