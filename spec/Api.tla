-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The library as a state machine. The state is a store of slots holding   *)
(* secret keys, public keys, signatures, messages and recovery ids; every  *)
(* call of the public interface is an action that reads some slots and     *)
(* octet arguments, may replace the contents of one slot, and returns an   *)
(* observation.                                                            *)
(*                                                                         *)
(* A slot is <<>> (never set) or <<value>>. Octet strings cross the        *)
(* interface as hexadecimal text (modules Trace, GenApi).                  *)
(*                                                                         *)
(* Expect(op, a, st) is [o, st]: what the call must return and the store   *)
(* after it. Calls are deterministic except that signing may be specified  *)
(* relationally (see JudgeSign).                                           *)
(***************************************************************************)
EXTENDS Ecdsa, Hex, Base64

Keys == INSTANCE Sec1
DerS == INSTANCE Der

Slots == 0..15
EmptyStore == [ sk |-> [i \in Slots |-> <<>>], pk |-> [i \in Slots |-> <<>>],
                sg |-> [i \in Slots |-> <<>>], ms |-> [i \in Slots |-> <<>>],
                ri |-> [i \in Slots |-> <<>>] ]

Has(m, i) == m[i] # <<>>

(* ---- observations --------------------------------------------------------- *)
OkV(b) == [r |-> "ok", v |-> ToHex(b)]
OkB(b) == [r |-> "ok", b |-> b]
OkN(n) == [r |-> "ok", n |-> n]
OkS(t) == [r |-> "ok", t |-> t]
Err(e) == [r |-> e]
NoArg == [r |-> "noarg"]
SigOct(g) == g.r \o g.s

PutSk(st, d, v) == [st EXCEPT !.sk[d] = <<v>>]
PutPk(st, d, v) == [st EXCEPT !.pk[d] = <<v>>]
PutSg(st, d, v) == [st EXCEPT !.sg[d] = <<v>>]
PutMs(st, d, v) == [st EXCEPT !.ms[d] = <<v>>]
PutRi(st, d, v) == [st EXCEPT !.ri[d] = <<v>>]

Res(o, st) == [o |-> o, st |-> st]

(* ---- secret keys ------------------------------------------------------------ *)
SkParse(a, st, sliced) ==
  LET b == Unhex(a.b)
  IN IF sliced /\ Len(b) # L THEN Res(Err("InvalidInputLength"), st)
     ELSE IF IsSecretEnc(b) THEN Res(OkV(b), PutSk(st, a.d, b))
     ELSE Res(Err("InvalidSecretKey"), st)

(* the blocks of the generator's output, in order, up to the first acceptable *)
SkRandom(a, st) ==
  LET bs == Unhex(a.b)
      blk(i) == SubSeq(bs, L * (i - 1) + 1, L * i)
      good == {i \in 1..(Len(bs) \div L) : IsSecretEnc(blk(i))}
      k == CHOOSE i \in good : \A j \in good : i <= j
  IN Res([r |-> "ok", v |-> ToHex(blk(k)), n |-> k * L], PutSk(st, a.d, blk(k)))

SkTweakAdd(a, st) ==
  LET v == SAdd(st.sk[a.k][1], st.sk[a.t][1])
  IN IF NatIsZero(v) THEN Res([r |-> "TweakOutOfRange", v |-> ToHex(st.sk[a.k][1])], st)
     ELSE Res(OkV(v), PutSk(st, a.k, v))

SkTweakMul(a, st) ==
  LET t == st.sk[a.t][1]
      v == SMul(st.sk[a.k][1], t)
  IN IF NatIsZero(t) THEN Res([r |-> "TweakOutOfRange", v |-> ToHex(st.sk[a.k][1])], st)
     ELSE Res(OkV(v), PutSk(st, a.k, v))

(* ---- public keys -------------------------------------------------------------- *)
PkResult(k, a, st) ==
  IF k.r = "ok" THEN Res(OkV(Keys!EncodeFull(k.p)), PutPk(st, a.d, k.p)) ELSE Res(Err(k.r), st)

PkDerive(a, st) ==
  LET q == GMul(st.sk[a.k][1]) IN Res(OkV(Keys!EncodeFull(q)), PutPk(st, a.d, q))

PkTweak(a, st, isAdd) ==
  LET p == st.pk[a.p][1]
      t == st.sk[a.t][1]
      q == IF isAdd THEN PAdd(p, GMul(t)) ELSE PMul(t, p)
  IN IF q = Inf THEN Res([r |-> "TweakOutOfRange", v |-> ToHex(Keys!EncodeFull(p))], st)
     ELSE Res(OkV(Keys!EncodeFull(q)), PutPk(st, a.p, q))

PkCombine(a, st) ==
  LET q == PSum([i \in DOMAIN a.ps |-> st.pk[a.ps[i]][1]])
  IN IF q = Inf THEN Res(Err("InvalidPublicKey"), st)
     ELSE Res(OkV(Keys!EncodeFull(q)), PutPk(st, a.d, q))

(* any integers x, y < 256^L as coordinates, in any representation *)
PkFromAffine(a, st) ==
  LET x == NatMod(Unhex(a.x), P)
      y == NatMod(Unhex(a.y), P)
  IN IF ~a.inf /\ OnCurve(x, y)
     THEN Res(OkV(Keys!EncodeFull(<<x, y>>)), PutPk(st, a.d, <<x, y>>))
     ELSE Res(Err("InvalidAffine"), st)

PkDeserialize(b, a, st) ==
  LET k == Keys!DecodeSlice(b, "none")
  IN IF k.r = "ok" THEN Res(OkV(Keys!EncodeFull(k.p)), PutPk(st, a.d, k.p)) ELSE Res(Err("serde"), st)

PkFromText(a, st) ==
  LET t == Decode64(Unhex(a.t))
  IN IF t.ok THEN PkDeserialize(t.b, a, st) ELSE Res(Err("serde"), st)

BinPrefix(n) == [i \in 1..8 |-> IF i = 1 THEN n % 256 ELSE IF i = 2 THEN n \div 256 ELSE 0]

(* ---- signatures ------------------------------------------------------------------ *)
SgPut(a, st, r, s) ==
  Res(OkV(r \o s), PutSg(st, a.d, [r |-> r, s |-> s]))

SgParse(a, st, sliced, std) ==
  LET b == Unhex(a.b)
      r == SubSeq(b, 1, L)
      s == SubSeq(b, L + 1, 2 * L)
  IN IF sliced /\ Len(b) # 2 * L THEN Res(Err("InvalidInputLength"), st)
     ELSE IF std /\ ~(IsScalarEnc(r) /\ IsScalarEnc(s)) THEN Res(Err("InvalidSignature"), st)
     ELSE SgPut(a, st, SRed(r), SRed(s))

SgDer(a, st, lax) ==
  LET d == IF lax THEN DerS!DecodeLax(Unhex(a.b)) ELSE DerS!DecodeStrict(Unhex(a.b))
  IN IF d.r = "ok" THEN SgPut(a, st, d.rr, d.ss) ELSE Res(Err(d.r), st)

SgNormalize(a, st) ==
  LET g == st.sg[a.g][1]
      h == [g EXCEPT !.s = Low(@)]
  IN Res(OkV(SigOct(h)), PutSg(st, a.g, h))

(* ---- messages, recovery ids ---------------------------------------------------------- *)
MsParse(a, st, sliced) ==
  LET b == Unhex(a.b)
  IN IF sliced /\ Len(b) # L THEN Res(Err("InvalidInputLength"), st)
     ELSE Res(OkV(SRed(b)), PutMs(st, a.d, SRed(b)))

RiParse(a, st, base) ==
  IF a.n >= base /\ a.n < base + 4 THEN Res(OkN(a.n - base), PutRi(st, a.d, a.n - base))
  ELSE Res(Err("InvalidRecoveryId"), st)

(* ---- signing, verification, recovery, key agreement --------------------------------- *)
(* Deterministic signing: the store receives the RFC 6979 signature. *)
Sign(a, st) ==
  LET res == SignDet(st.sk[a.k][1], st.ms[a.m][1])
      st1 == PutRi(PutSg(st, a.g, [r |-> res.r, s |-> res.s]), a.i, res.id)
  IN Res([r |-> "ok", v |-> ToHex(res.r \o res.s), n |-> res.id], st1)

SignRaw(a, st) ==
  LET res == SignWith(st.sk[a.k][1], st.ms[a.m][1], Unhex(a.nonce))
  IN IF res.ok
     THEN Res([r |-> "ok", v |-> ToHex(res.r \o res.s), n |-> res.id],
              PutRi(PutSg(st, a.g, [r |-> res.r, s |-> res.s]), a.i, res.id))
     ELSE Res(Err("InvalidMessage"), st)

Verify(a, st) ==
  Res(OkB(Valid(st.pk[a.p][1], st.ms[a.m][1], st.sg[a.g][1].r, st.sg[a.g][1].s)), st)

RecoverKey(a, st) ==
  LET res == Recover(st.ms[a.m][1], st.sg[a.g][1].r, st.sg[a.g][1].s, st.ri[a.i][1])
  IN IF res.ok THEN Res(OkV(Keys!EncodeFull(res.q)), PutPk(st, a.d, res.q))
     ELSE Res(Err("InvalidSignature"), st)

Ecdh(a, st) ==
  LET k == st.sk[a.k][1]
      c == Keys!EncodeCompressed(PMul(k, st.pk[a.p][1]))
  IN IF NatIsZero(k) THEN Res(Err("InvalidSecretKey"), st)
     ELSE Res(OkV(IF a.dig = "id33" THEN c ELSE Sha256(c)), st)

(* ---- everything in the store ------------------------------------------------------------ *)
Dump(st) ==
  LET f(m, enc(_)) == [i \in 1..16 |-> IF m[i - 1] = <<>> THEN "" ELSE enc(m[i - 1][1])]
      fi(m) == [i \in 1..16 |-> IF m[i - 1] = <<>> THEN -1 ELSE m[i - 1][1]]
  IN [ r |-> "ok",
       sk |-> f(st.sk, ToHex),
       pk |-> f(st.pk, LAMBDA p : ToHex(Keys!EncodeFull(p))),
       sg |-> f(st.sg, LAMBDA g : ToHex(SigOct(g))),
       ms |-> f(st.ms, ToHex),
       ri |-> fi(st.ri) ]

(* ---- which slots a call reads: it is refused when one of them is not set ---------------- *)
Reads(op, a) ==
  CASE op \in {"sk_ser", "sk_hex", "sk_scalar", "sk_clear", "sk_is_zero", "sk_inv", "sk_copy"} -> << <<"sk", a.k>> >>
    [] op \in {"sk_tadd", "sk_tmul", "sk_eq"} -> << <<"sk", a.k>>, <<"sk", a.t>> >>
    [] op = "pk_derive" -> << <<"sk", a.k>> >>
    [] op \in {"pk_ser", "pk_serc", "pk_json", "pk_bin", "pk_affine", "pk_copy"} -> << <<"pk", a.p>> >>
    [] op \in {"pk_tadd", "pk_tmul"} -> << <<"pk", a.p>>, <<"sk", a.t>> >>
    [] op = "pk_eq" -> << <<"pk", a.p>>, <<"pk", a.q>> >>
    [] op = "pk_combine" -> [i \in DOMAIN a.ps |-> <<"pk", a.ps[i]>>]
    [] op \in {"sg_ser", "sg_ser_der", "sg_norm", "sg_copy"} -> << <<"sg", a.g>> >>
    [] op = "sg_eq" -> << <<"sg", a.g>>, <<"sg", a.h>> >>
    [] op = "ms_ser" -> << <<"ms", a.m>> >>
    [] op = "ri_ser" -> << <<"ri", a.i>> >>
    [] op \in {"sign", "sign_raw"} -> << <<"sk", a.k>>, <<"ms", a.m>> >>
    [] op = "verify" -> << <<"sg", a.g>>, <<"ms", a.m>>, <<"pk", a.p>> >>
    [] op = "recover" -> << <<"sg", a.g>>, <<"ms", a.m>>, <<"ri", a.i>> >>
    [] op = "ecdh" -> << <<"pk", a.p>>, <<"sk", a.k>> >>
    [] OTHER -> <<>>

Enabled(op, a, st) ==
  \A i \in DOMAIN Reads(op, a) : st[Reads(op, a)[i][1]][Reads(op, a)[i][2]] # <<>>

Apply(op, a, st) ==
  CASE op = "sk_parse" -> SkParse(a, st, FALSE)
    [] op = "sk_parse_slice" -> SkParse(a, st, TRUE)
    [] op = "sk_from_scalar" -> SkParse(a, st, FALSE)
    [] op = "sk_default" -> Res(OkV(One), PutSk(st, a.d, One))
    [] op = "sk_random" -> SkRandom(a, st)
    [] op = "sk_ser" -> Res(OkV(st.sk[a.k][1]), st)
    [] op = "sk_hex" -> Res(OkS(ToHex(st.sk[a.k][1])), st)
    [] op = "sk_scalar" -> Res(OkV(st.sk[a.k][1]), st)
    [] op = "sk_inv" -> LET v == SInv(st.sk[a.k][1]) IN Res(OkV(v), PutSk(st, a.d, v))
    [] op = "sk_copy" -> Res(OkV(st.sk[a.k][1]), PutSk(st, a.d, st.sk[a.k][1]))
    [] op = "sk_tadd" -> SkTweakAdd(a, st)
    [] op = "sk_tmul" -> SkTweakMul(a, st)
    [] op = "sk_clear" -> Res(OkB(TRUE), PutSk(st, a.k, Zero))
    [] op = "sk_is_zero" -> Res(OkB(NatIsZero(st.sk[a.k][1])), st)
    [] op = "sk_eq" -> Res(OkB(st.sk[a.k][1] = st.sk[a.t][1]), st)
    [] op = "pk_derive" -> PkDerive(a, st)
    [] op = "pk_parse" -> PkResult(Keys!DecodeFull(Unhex(a.b)), a, st)
    [] op = "pk_parse_comp" -> PkResult(Keys!DecodeCompressed(Unhex(a.b)), a, st)
    [] op = "pk_parse_slice" -> PkResult(Keys!DecodeSlice(Unhex(a.b), a.fmt), a, st)
    [] op = "pk_ser" -> Res(OkV(Keys!EncodeFull(st.pk[a.p][1])), st)
    [] op = "pk_serc" -> Res(OkV(Keys!EncodeCompressed(st.pk[a.p][1])), st)
    [] op = "pk_copy" -> Res(OkV(Keys!EncodeFull(st.pk[a.p][1])), PutPk(st, a.d, st.pk[a.p][1]))
    [] op = "pk_affine" -> Res(OkV(Keys!EncodeFull(st.pk[a.p][1])), PutPk(st, a.d, st.pk[a.p][1]))
    [] op = "pk_from_affine" -> PkFromAffine(a, st)
    [] op = "pk_tadd" -> PkTweak(a, st, TRUE)
    [] op = "pk_tmul" -> PkTweak(a, st, FALSE)
    [] op = "pk_combine" -> PkCombine(a, st)
    [] op = "pk_eq" -> Res(OkB(st.pk[a.p][1] = st.pk[a.q][1]), st)
    [] op = "pk_json" -> Res(OkV(Encode64(Keys!EncodeFull(st.pk[a.p][1]))), st)
    [] op = "pk_bin" -> Res(OkV(BinPrefix(2 * L + 1) \o Keys!EncodeFull(st.pk[a.p][1])), st)
    [] op = "pk_from_json" -> PkFromText(a, st)
    [] op = "pk_from_doc" -> Res(Err("serde"), st)
    [] op = "pk_from_bin" -> PkDeserialize(Unhex(a.b), a, st)
    [] op = "sg_parse_std" -> SgParse(a, st, FALSE, TRUE)
    [] op = "sg_parse_ovf" -> SgParse(a, st, FALSE, FALSE)
    [] op = "sg_std_slice" -> SgParse(a, st, TRUE, TRUE)
    [] op = "sg_ovf_slice" -> SgParse(a, st, TRUE, FALSE)
    [] op = "sg_raw" -> SgPut(a, st, Unhex(a.r), Unhex(a.s))
    [] op = "sg_copy" -> SgPut(a, st, st.sg[a.g][1].r, st.sg[a.g][1].s)
    [] op = "sg_der" -> SgDer(a, st, FALSE)
    [] op = "sg_lax" -> SgDer(a, st, TRUE)
    [] op = "sg_ser" -> Res(OkV(SigOct(st.sg[a.g][1])), st)
    [] op = "sg_ser_der" -> Res(OkV(DerS!EncodeDer(st.sg[a.g][1].r, st.sg[a.g][1].s)), st)
    [] op = "sg_arr" -> Res([r |-> "ok", v |-> ToHex([i \in 1..a.n |-> i - 1]), n |-> a.n, empty |-> a.n = 0, zero |-> TRUE], st)
    [] op = "sg_norm" -> SgNormalize(a, st)
    [] op = "sg_eq" -> Res(OkB(st.sg[a.g][1] = st.sg[a.h][1]), st)
    [] op = "ms_parse" -> MsParse(a, st, FALSE)
    [] op = "ms_slice" -> MsParse(a, st, TRUE)
    [] op = "ms_ser" -> Res(OkV(st.ms[a.m][1]), st)
    [] op = "ri_parse" -> RiParse(a, st, 0)
    [] op = "ri_rpc" -> RiParse(a, st, 27)
    [] op = "ri_ser" -> Res(OkN(st.ri[a.i][1]), st)
    [] op = "sign" -> Sign(a, st)
    [] op = "sign_raw" -> SignRaw(a, st)
    [] op = "verify" -> Verify(a, st)
    [] op = "recover" -> RecoverKey(a, st)
    [] op = "ecdh" -> Ecdh(a, st)
    [] op = "dump" -> Res(Dump(st), st)

Expect(op, a, st) == IF Enabled(op, a, st) THEN Apply(op, a, st) ELSE Res(NoArg, st)
=============================================================================
