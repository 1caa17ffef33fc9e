------------------------------ MODULE ToyCodec ------------------------------
(***************************************************************************)
(* The grammars of modules Sec1 and Der, on a curve with one-octet         *)
(* coordinates, for every string in large finite sets: what is accepted is *)
(* exactly what the encoders produce (with the stated exceptions), and     *)
(* strict DER is a part of lax DER. Decides C06, C07, C12, C13, C14 for    *)
(* the specification.                                                      *)
(***************************************************************************)
EXTENDS Sec1, Small, Hex, FiniteSets, TLC

DerS == INSTANCE Der
RD == INSTANCE Reader
CONSTANTS Wide,         \* octets tried in strings of arbitrary shape
          More          \* and how many of them after the first component's tag, length and first octet
n == N[1]
p == P[1]
Oct == 0..255
Coord == {<<k>> : k \in 0..255}
Points == {<<x, y>> : x \in {<<k>> : k \in 0..(p - 1)}, y \in {<<k>> : k \in 0..(p - 1)}}
Curve1 == {q \in Points : OnCurve(q[1], q[2])}
Scal == {<<k>> : k \in 0..(n - 1)}

VARIABLES c, done
vars == <<c, done>>
(* the first octet splits the work *)
Init == done = FALSE /\ c \in [k : {"key", "der", "sig"}, a : Oct]
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Near == 0..(p + 1) \cup {127, 128, 254, 255}

(* ---- public keys ------------------------------------------------------- *)
KeyStrings(a) == {<<a>>} \cup {<<a, b>> : b \in Oct} \cup {<<a, b, d>> : b \in Near, d \in Near}
                 \cup (IF a < 8 THEN {<<a, b, d, e>> : b \in {1, 2}, d \in {1, 2, 3}, e \in {0, 1}} ELSE {})
Hybrid(q) == <<IF NatOdd(q[2]) THEN 7 ELSE 6>> \o q[1] \o q[2]
KeyStr(b) ==
  LET k == DecodeSlice(b, "none")
      f == DecodeSlice(b, "full")
      m == DecodeSlice(b, "comp")
      w == DecodeSlice(b, "raw")
  IN /\ k.r \in {"ok", "InvalidPublicKey", "InvalidInputLength"}
     /\ k.r = "InvalidInputLength" <=> Len(b) \notin {L + 1, 2 * L, 2 * L + 1}
     /\ k.r = "ok" => k.p \in Curve1
     /\ f.r = "ok" <=> \E q \in Curve1 : b = EncodeFull(q) \/ b = Hybrid(q)
     /\ f.r = "ok" => b = EncodeFull(f.p) \/ b = Hybrid(f.p)
     /\ m.r = "ok" <=> \E q \in Curve1 : b = EncodeCompressed(q)
     /\ m.r = "ok" => b = EncodeCompressed(m.p)
     /\ w.r = "ok" <=> \E q \in Curve1 : b = q[1] \o q[2]
     /\ w.r = "ok" => b = w.p[1] \o w.p[2]
KeyAll(a) ==
  \A b \in KeyStrings(a) : Len(b) # 2 => KeyStr(b)      \* with L = 1, two octets are both raw and compressed
Every == \A q \in Curve1 : /\ DecodeSlice(EncodeFull(q), "full") = KeyOk(q)
                           /\ DecodeSlice(EncodeCompressed(q), "comp") = KeyOk(q)
                           /\ DecodeSlice(q[1] \o q[2], "raw") = KeyOk(q)
                           /\ Lift(q[1], NatOdd(q[2])) = q

(* ---- DER ----------------------------------------------------------------- *)
Arb(a) ==      \* strings of every shape with octets from Wide, behind the fixed tags
  IF a \notin (0..(More + 6)) \cup {127, 128, 129, 130, 255} THEN {} ELSE
  {<<48, a>> \o t : t \in {<<2, b, x>> \o u : b \in {0, 1, 2, 128, 129, 130}, x \in Wide,
                                             u \in UNION {[1..k -> Wide] : k \in 0..More}}}
Edited(a) ==   \* one octet of a canonical encoding replaced, inserted or removed
  LET e == {DerS!EncodeDer(r, s) : r \in Scal, s \in {<<0>>, <<1>>, <<n - 1>>, <<n \div 2>>}}
  IN UNION {   {[b EXCEPT ![i] = a] : i \in DOMAIN b}
          \cup {SubSeq(b, 1, i) \o <<a>> \o SubSeq(b, i + 1, Len(b)) : i \in 0..Len(b)}
          \cup {SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)) : i \in DOMAIN b} : b \in e}
Reduced(b) == \* the numbers in a strict encoding are below n
  LET f(o) == Len(Strip(o)) <= L /\ NatLt(o, N)
  IN f(DerS!IntOctets(b, 2)) /\ f(DerS!IntOctets(b, DerS!IntEnd(b, 2)))
(* taking the string apart with the reader decodes the same *)
ByReader(b) ==
  LET q == RD!ReaderCall([op |-> "sequence", n |-> 0], b, 0)
      l == IF q.ok THEN RD!LenOf(b, q.at) ELSE [ok |-> FALSE]
      fits == l.ok /\ l.n = RD!Left(b, l.at)
      r == IF fits THEN RD!ReadInteger(b, l.at) ELSE RD!No(0)
      s == IF r.ok /\ r.known THEN RD!ReadInteger(b, r.at) ELSE RD!No(0)
  IN IF r.ok /\ r.known /\ s.ok /\ s.known /\ RD!Left(b, s.at) = 0
     THEN <<r.val, s.val>> ELSE <<>>
ByLaxReader(b) ==
  LET q == RD!ReaderCall([op |-> "sequence", n |-> 0], b, 0)
      l == IF q.ok THEN RD!ReadSeqLenLax(b, q.at) ELSE RD!No(0)
      r == IF l.ok THEN RD!ReadIntegerLax(b, l.at) ELSE RD!No(0)
      s == IF r.ok THEN RD!ReadIntegerLax(b, r.at) ELSE RD!No(0)
  IN IF s.ok THEN <<r.val, s.val>> ELSE <<>>
Texts(d) == IF d.r = "ok" THEN <<ToHex(d.rr), ToHex(d.ss)>> ELSE <<>>
DerStr(b) ==
  LET s == DerS!DecodeStrict(b)
      l == DerS!DecodeLax(b)
  IN /\ ByReader(b) = Texts(s) /\ ByLaxReader(b) = Texts(l)
     /\ s.r = "ok" => l = s                                     \* strict is part of lax
     /\ s.r = "ok" /\ Reduced(b) => b = DerS!EncodeDer(s.rr, s.ss)
     /\ s.r = "ok" /\ ~Reduced(b) => NatIsZero(s.rr) \/ NatIsZero(s.ss)
     /\ l.r = "ok" => IsScalarEnc(l.rr) /\ IsScalarEnc(l.ss)
     /\ l.r = "ok" => DerS!DecodeLax(b \o <<0>>) = l             \* what follows does not matter
     /\ s.r = "ok" => DerS!DecodeStrict(b \o <<0>>).r # "ok"
     /\ s.r = "ok" => DerS!DecodeStrict(SubSeq(b, 1, Len(b) - 1)).r # "ok"
DerEvery(a) == a < n => \A s \in Scal :
  LET b == DerS!EncodeDer(<<a>>, s)
  IN DerS!DecodeStrict(b) = DerS!DerOk(<<a>>, s) /\ DerS!DecodeLax(b) = DerS!DerOk(<<a>>, s)

(* ---- fixed-size ------------------------------------------------------------ *)
SigStr(a) == \A b \in Oct : (IsScalarEnc(<<a>>) /\ IsScalarEnc(<<b>>)) <=> (SRed(<<a>>) \o SRed(<<b>>)) = <<a, b>>

Holds == done =>
  CASE c.k = "key" -> KeyAll(c.a) /\ (c.a = 0 => Every)
    [] c.k = "der" -> (\A b \in Arb(c.a) \cup Edited(c.a) : DerStr(b)) /\ DerEvery(c.a)
    [] c.k = "sig" -> SigStr(c.a)
=============================================================================
