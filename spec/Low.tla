-------------------------------- MODULE Low --------------------------------
(***************************************************************************)
(* The arithmetic layer of the library: scalars, field elements in their   *)
(* redundant representations, points in affine and Jacobian coordinates,   *)
(* scalar multiplication, precomputed tables.                              *)
(*                                                                         *)
(* Field elements and points live in registers. Of a field register the    *)
(* specification knows the value and what the interface documents about    *)
(* its representation: an upper bound of its magnitude, and whether it is  *)
(* normalised. These two decide which calls are permitted; what the calls  *)
(* return depends on the value alone. Of a point register it knows the     *)
(* point; coordinates are unconstrained as long as they denote it.         *)
(*                                                                         *)
(* Judge(e, st) is [ok, st, exp]. A call outside its precondition is       *)
(* reported as such: the script is at fault then, not the library.         *)
(***************************************************************************)
EXTENDS Curve, Hex, TLC

Regs == 0..11
EmptyRegs == [ f |-> [i \in Regs |-> <<>>],      \* <<[v, m, n]>>
               a |-> [i \in Regs |-> <<>>],      \* <<point>>, affine
               j |-> [i \in Regs |-> <<>>] ]     \* <<point>>, Jacobian

MagMax == 31

(* ---- verdicts --------------------------------------------------------------- *)
Pre(st) == [ok |-> FALSE, st |-> st, exp |-> [r |-> "precondition"]]
Is(e, o, st) == [ok |-> e.o = o, st |-> st, exp |-> o]
Rel(b, e, w, st) == [ok |-> b, st |-> st, exp |-> [r |-> w]]

(* ---- scalars -------------------------------------------------------------------- *)
Sc1(a) ==
  LET x == Unhex(a.x)
      h(v) == ToHex(Fit(v, L))
  IN [ r |-> "ok", neg |-> h(SNeg(x)), sqr |-> h(SMul(x, x)), inv |-> h(SInv(x)),
       cn0 |-> h(x), cn1 |-> h(SNeg(x)), b32 |-> h(x), txt |-> h(x),
       zero |-> NatIsZero(x), one |-> x = One, even |-> ~NatOdd(x), high |-> SHigh(x), same |-> TRUE ]

Sc2(a) ==
  LET x == Unhex(a.x)
      y == Unhex(a.y)
  IN [ r |-> "ok", add |-> ToHex(SAdd(x, y)), mul |-> ToHex(SMul(x, y)), eq |-> x = y, same |-> TRUE ]

ScB32(a) == LET b == Unhex(a.b) IN [r |-> "ok", v |-> ToHex(SRed(b)), ovf |-> ~NatLt(b, N)]

(* bits off .. off + cnt - 1 of the value, cnt <= 31 *)
BitSlice(x, off, cnt) ==
  LET s == NatShr(x, off)
      v(i) == IF Len(s) >= i THEN s[Len(s) - i + 1] ELSE 0
      low == v(1) + 256 * (v(2) + 256 * v(3))
      n31 == low + 16777216 * (v(4) % 128)
  IN IF cnt = 31 THEN n31 ELSE n31 % (2 ^ cnt)

ScBits(a) ==
  LET n == BitSlice(Unhex(a.x), a.off, a.cnt)
  IN [r |-> "ok", var |-> n, fix |-> IF (a.off + a.cnt - 1) \div 32 = a.off \div 32 THEN n ELSE -1]

(* the 32 bits of limb i at once *)
ScWord(a) == LET x == Unhex(a.x) IN [r |-> "ok", v |-> ToHex(SubSeq(x, L - 4 * a.i - 3, L - 4 * a.i))]

ScShr(a) ==
  LET x == Unhex(a.x)
  IN [r |-> "ok", v |-> ToHex(Fit(NatShr(x, a.n), L)), n |-> BitSlice(x, 0, a.n)]

Pow2(k) == [i \in 1..L |-> IF i = L - (k \div 8) THEN 2 ^ (k % 8) ELSE 0]

ScAddBit(e, st) ==
  LET x == Unhex(e.a.x)
      y == IF e.a.flag THEN Fit(PureAdd(x, Pow2(e.a.bit)), L + 1) ELSE x
  IN IF ~NatLt(y, N) THEN Pre(st) ELSE Is(e, [r |-> "ok", v |-> ToHex(Fit(y, L))], st)

ScInt(a) == [r |-> "ok", v |-> ToHex(Fit(Unhex(a.v), L)), same |-> TRUE]

(* ---- field elements -------------------------------------------------------------- *)
Fe(v, m, n) == [v |-> NatMod(v, P), m |-> m, n |-> n]
FHas(st, i) == st.f[i] # <<>>
F(st, i) == st.f[i][1]
FObs(x) == [r |-> "ok", v |-> ToHex(x.v), zero |-> NatIsZero(x.v), same |-> TRUE]
FPut(e, st, x) == Is(e, FObs(x), [st EXCEPT !.f[e.a.d] = <<x>>])
FPutIf(pre, e, st, x) == IF pre THEN FPut(e, st, x) ELSE Pre(st)

(* a sum of ten limbs with 26 bits each, not necessarily reduced *)
LimbMax == 134217726        \* 2 * (2^26 - 1)
TopMax == 8388606           \* 2 * (2^22 - 1)
RECURSIVE LimbVal(_, _)
LimbVal(l, i) == IF i > Len(l) THEN Zero
                 ELSE FAdd(FMul(LimbVal(l, i + 1), FSmall(67108864)), FSmall(l[i]))
LimbsOk(l) == (\A i \in 1..9 : l[i] <= LimbMax) /\ l[10] <= TopMax

FeB32(e, st) ==
  LET b == Unhex(e.a.b)
  IN IF NatLt(b, P) THEN FPut(e, st, Fe(b, 1, TRUE))
     ELSE Is(e, [r |-> "overflow"], [st EXCEPT !.f[e.a.d] = <<>>])

FeSqrt(e, st) ==
  LET x == F(st, e.a.x)
      y == Fe(FRoot(x.v), 1, FALSE)
      ok == FIsSquare(x.v)
  IN IF x.m > 8 THEN Pre(st)
     ELSE Is(e, [ok |-> ok] @@ FObs(y), [st EXCEPT !.f[e.a.d] = <<y>>])

FeReads(op, a) ==
  CASE op \in {"fe_add", "fe_mul", "fe_cmp", "fe_eq", "fe_eqvar", "fe_cmov"} -> {a.x, a.y}
    [] op \in {"fe_neg", "fe_muli", "fe_sqr", "fe_inv", "fe_sqrt", "fe_quad", "fe_norm", "fe_store",
               "fe_zero", "fe_odd", "fe_copy", "fe_look"} -> {a.x}
    [] OTHER -> {}

FieldJudge(e, st) ==
  LET a == e.a
      x == F(st, a.x)
      y == F(st, a.y)
  IN CASE e.op = "fe_raw" -> FPutIf(LimbsOk(a.l), e, st, Fe(LimbVal(a.l, 1), 1, FALSE))
       [] e.op = "fe_new" -> FPutIf(NatLt(Unhex(a.b), P), e, st, Fe(Unhex(a.b), 1, TRUE))
       [] e.op = "fe_b32" -> FeB32(e, st)
       [] e.op = "fe_int" -> FPutIf(a.n <= 67108863, e, st, Fe(OctetsOf(a.n, 4), 1, TRUE))
       [] e.op = "fe_clear" -> FPut(e, st, Fe(Zero, 0, TRUE))
       [] e.op = "fe_copy" -> FPut(e, st, x)
       [] e.op = "fe_look" -> Is(e, FObs(x), st)
       [] e.op = "fe_add" -> FPutIf(x.m + y.m <= MagMax, e, st, Fe(FAdd(x.v, y.v), x.m + y.m, FALSE))
       [] e.op = "fe_neg" -> FPutIf(x.m <= a.m /\ a.m + 1 <= MagMax, e, st, Fe(FNeg(x.v), a.m + 1, FALSE))
       [] e.op = "fe_muli" -> FPutIf(x.m * a.n <= MagMax, e, st, Fe(FMulInt(x.v, a.n), x.m * a.n, FALSE))
       [] e.op = "fe_mul" -> FPutIf(x.m <= 8 /\ y.m <= 8, e, st, Fe(FMul(x.v, y.v), 1, FALSE))
       [] e.op = "fe_sqr" -> FPutIf(x.m <= 8, e, st, Fe(FSqr(x.v), 1, FALSE))
       [] e.op = "fe_inv" -> FPutIf(x.m <= 8, e, st, Fe(FInv(x.v), 1, FALSE))
       [] e.op = "fe_sqrt" -> FeSqrt(e, st)
       [] e.op = "fe_quad" -> IF x.m > 8 THEN Pre(st) ELSE Is(e, [r |-> "ok", b |-> FIsSquare(x.v)], st)
       [] e.op = "fe_norm" -> FPut(e, st, Fe(x.v, 1, a.kind # "weak" \/ x.n))
       [] e.op = "fe_cmov" -> FPut(e, st, IF a.flag
                                          THEN y ELSE x)
       [] e.op = "fe_store" -> IF ~x.n THEN Pre(st)
            ELSE Is(e, [r |-> "ok", w |-> ToHex(x.v)] @@ FObs(Fe(x.v, 1, TRUE)),
                    [st EXCEPT !.f[a.d] = <<Fe(x.v, 1, TRUE)>>])
       [] e.op = "fe_zero" -> IF ~x.n THEN Pre(st) ELSE Is(e, [r |-> "ok", b |-> NatIsZero(x.v)], st)
       [] e.op = "fe_odd" -> IF ~x.n THEN Pre(st) ELSE Is(e, [r |-> "ok", b |-> NatOdd(x.v)], st)
       [] e.op = "fe_cmp" -> IF ~(x.n /\ y.n) THEN Pre(st) ELSE Is(e, [r |-> "ok", n |-> NatCmp(x.v, y.v)], st)
       [] e.op = "fe_eq" -> IF x.m + 1 + y.m > MagMax THEN Pre(st) ELSE Is(e, [r |-> "ok", b |-> x.v = y.v], st)
       [] e.op = "fe_eqvar" -> IF x.m > 1 \/ y.m + 2 > MagMax THEN Pre(st)
                               ELSE Is(e, [r |-> "ok", b |-> x.v = y.v], st)

(* ---- points ------------------------------------------------------------------------- *)
A(st, i) == st.a[i][1]
J(st, i) == st.j[i][1]
AText(p) == IF p = Inf THEN "" ELSE ToHex(p[1] \o p[2])
AObs(p) == [r |-> "ok", inf |-> p = Inf, v |-> AText(p)]
APut(e, st, p) == Is(e, AObs(p), [st EXCEPT !.a[e.a.d] = <<p>>])

(* the point that Jacobian coordinates denote; z must be invertible *)
JDenotes(o, p) ==
  IF o.inf THEN p = Inf
  ELSE LET zi == FInv(Unhex(o.z))
           zi2 == FSqr(zi)
       IN /\ ~NatIsZero(Unhex(o.z))
          /\ p = <<FMul(Unhex(o.x), zi2), FMul(Unhex(o.y), FMul(zi2, zi))>>
(* r->z = a->z * rzr, with z = 0 at infinity *)
RzrOk(e, st) ==
  "rz" \in DOMAIN e.o =>
    FMul(IF J(st, e.a.x) = Inf THEN Zero ELSE Unhex(e.o.az), Unhex(e.o.rz)) = (IF e.o.inf THEN Zero ELSE Unhex(e.o.z))
JPut(e, st, p) ==
  [ ok |-> e.o.r = "ok" /\ JDenotes(e.o, p) /\ RzrOk(e, st),
    st |-> [st EXCEPT !.j[e.a.d] = <<p>>],
    exp |-> [r |-> "coordinates of", v |-> AText(p)] ]

GeXo(e, st, odd) ==      \* odd = -1: the square root that is itself a square
  LET x == NatMod(Unhex(e.a.x), P)
      p == IF odd = -1 THEN <<x, FRoot(CurveRhs(x))>> ELSE Lift(x, odd = 1)
  IN IF Liftable(x) THEN APut(e, st, p)
     ELSE Is(e, [r |-> "none"], [st EXCEPT !.a[e.a.d] = <<>>])

(* P, 3P, 5P, .. *)
RECURSIVE OddMults(_, _, _)
OddMults(p, d, n) == IF n = 0 THEN <<>> ELSE <<p>> \o OddMults(PAdd(p, d), d, n - 1)

TblOk(e, st) ==
  LET p == J(st, e.a.x)
      want == OddMults(p, PDouble(p), e.a.n)
      text == [i \in 1..e.a.n |-> AText(want[i])]
      gz == Unhex(e.o.gz)
      gzi == FInv(gz)
      unscale(t) == LET b == Unhex(t)
                        zz == FSqr(gzi)
                    IN ToHex(FMul(SubSeq(b, 1, L), zz) \o FMul(SubSeq(b, L + 1, 2 * L), FMul(zz, gzi)))
  IN /\ e.o.r = "ok" /\ e.o.aff = text
     /\ ~NatIsZero(gz) /\ [i \in 1..e.a.n |-> unscale(e.o.glob[i])] = text

GeReads(op, a) ==
  CASE op \in {"ge_neg", "gej_from", "ge_store", "ge_look", "ge_isinf"} -> << <<"a", a.x>> >>
    [] op = "ge_eq" -> << <<"a", a.x>>, <<"a", a.y>> >>
    [] op \in {"gej_rescale", "gej_dbl", "gej_dblnz", "gej_neg", "gej_aff", "gej_eqx", "gej_quady",
               "tbl", "gej_copy"} -> << <<"j", a.x>> >>
    [] op = "gej_add" -> << <<"j", a.x>>, <<"j", a.y>> >>
    [] op \in {"gej_addge", "gej_addgev"} -> << <<"j", a.x>>, <<"a", a.y>> >>
    [] op = "gej_addz" -> << <<"j", a.x>> >>
    [] op = "ecm" -> << <<"j", a.x>> >>
    [] op = "ecc" -> << <<"a", a.x>> >>
    [] OTHER -> <<>>

(* b given as coordinates with respect to a denominator: (bx, by) stands for *)
(* (bx * zinv^2, by * zinv^3)                                                *)
ZPoint(a) ==
  IF a.binf THEN Inf
  ELSE LET w == Unhex(a.zinv)
           w2 == FSqr(w)
       IN <<FMul(Unhex(a.bx), w2), FMul(Unhex(a.by), FMul(w2, w))>>

PointJudge(e, st) ==
  LET a == e.a
      p == IF GeReads(e.op, a)[1][1] = "a" THEN A(st, a.x) ELSE J(st, a.x)
  IN CASE e.op = "ge_neg" -> APut(e, st, PNeg(p))
       [] e.op = "ge_look" -> Is(e, AObs(p), st)
       [] e.op = "ge_isinf" -> Is(e, [r |-> "ok", b |-> p = Inf], st)
       [] e.op = "ge_store" -> IF p = Inf THEN Pre(st) ELSE APut(e, st, p)
       [] e.op = "ge_eq" -> IF p = Inf \/ A(st, a.y) = Inf THEN Pre(st)
                            ELSE Is(e, [r |-> "ok", b |-> p = A(st, a.y)], st)
       [] e.op \in {"gej_from", "gej_copy"} -> JPut(e, st, p)
       [] e.op = "gej_rescale" -> IF NatIsZero(NatMod(Unhex(a.s), P)) THEN Pre(st) ELSE JPut(e, st, p)
       [] e.op = "gej_dbl" -> JPut(e, st, PDouble(p))
       [] e.op = "gej_dblnz" -> IF p = Inf THEN Pre(st) ELSE JPut(e, st, PDouble(p))
       [] e.op = "gej_neg" -> JPut(e, st, PNeg(p))
       [] e.op = "gej_add" -> IF a.rzr /\ p = Inf THEN Pre(st) ELSE JPut(e, st, PAdd(p, J(st, a.y)))
       [] e.op = "gej_addge" -> IF A(st, a.y) = Inf THEN Pre(st) ELSE JPut(e, st, PAdd(p, A(st, a.y)))
       [] e.op = "gej_addgev" -> IF a.rzr /\ p = Inf THEN Pre(st) ELSE JPut(e, st, PAdd(p, A(st, a.y)))
       [] e.op = "gej_addz" -> IF ~IsPoint(ZPoint(a)) \/ (~a.binf /\ NatIsZero(Unhex(a.zinv))) THEN Pre(st)
                               ELSE JPut(e, st, PAdd(p, ZPoint(a)))
       [] e.op = "gej_aff" -> APut(e, st, p)
       [] e.op = "gej_eqx" -> IF p = Inf THEN Pre(st)
                              ELSE Is(e, [r |-> "ok", b |-> p[1] = NatMod(Unhex(a.v), P)], st)
       [] e.op = "gej_quady" -> Is(e, [r |-> "ok", b |-> p # Inf /\ FIsSquare(p[2])], st)
       [] e.op = "tbl" -> IF p = Inf THEN Pre(st) ELSE Rel(TblOk(e, st), e, "odd multiples", st)
       [] e.op = "ecm" -> IF p = Inf THEN Pre(st)
                          ELSE JPut(e, st, PAdd(PMul(Unhex(a.na), p), GMul(Unhex(a.ng))))
       [] e.op = "ecc" -> IF p = Inf \/ NatIsZero(Unhex(a.k)) THEN Pre(st) ELSE JPut(e, st, PMul(Unhex(a.k), p))

(* ---- the tables -------------------------------------------------------------------------- *)
PtOf(t) == LET b == Unhex(t) IN <<SubSeq(b, 1, L), SubSeq(b, L + 1, 2 * L)>>
(* entries from .. from + n - 1 of the odd-multiples table; the one before is in `prev` *)
TabGOk(e) ==
  LET v == e.o.v
      d == PDouble(G)
      start == IF e.a.from = 0 THEN IF v[1] = ToHex(GX \o GY) THEN TRUE ELSE FALSE
               ELSE PAdd(PtOf(e.o.prev), d) = PtOf(v[1])
  IN /\ e.o.r = "ok" /\ start /\ Len(v) = e.a.n
     /\ \A i \in 1..(e.a.n - 1) : PtOf(v[i + 1]) = PAdd(PtOf(v[i]), d)
(* window j of the comb: entry i is entry 0 plus i * 16^j * G *)
TabGenOk(e) ==
  LET v == e.o.v
      step == GMul(Pow2(4 * e.a.j))
  IN /\ e.o.r = "ok" /\ Len(v) = 16
     /\ IsPoint(PtOf(v[1]))
     /\ \A i \in 1..15 : PtOf(v[i + 1]) = PAdd(PtOf(v[i]), step)
TabSumOk(e) == e.o.r = "ok" /\ PSum([i \in DOMAIN e.o.v |-> PtOf(e.o.v[i])]) = Inf

(* ---- everything ---------------------------------------------------------------------------- *)
Judge(e, st) ==
  LET a == e.a
  IN CASE e.op = "sc1" -> Is(e, Sc1(a), st)
       [] e.op = "sc2" -> Is(e, Sc2(a), st)
       [] e.op = "sc_b32" -> Is(e, ScB32(a), st)
       [] e.op = "sc_bits" -> Is(e, ScBits(a), st)
       [] e.op = "sc_word" -> Is(e, ScWord(a), st)
       [] e.op = "sc_shr" -> Is(e, ScShr(a), st)
       [] e.op = "sc_addbit" -> ScAddBit(e, st)
       [] e.op = "sc_int" -> Is(e, ScInt(a), st)
       [] e.op = "ge_set" -> IF IsPoint(<<NatMod(Unhex(a.x), P), NatMod(Unhex(a.y), P)>>)
                             THEN APut(e, st, <<NatMod(Unhex(a.x), P), NatMod(Unhex(a.y), P)>>) ELSE Pre(st)
       [] e.op = "ge_inf" -> APut(e, st, Inf)
       [] e.op = "ge_gen" -> APut(e, st, G)
       [] e.op = "gej_inf" -> JPut(e, st, Inf)
       [] e.op = "ge_xo" -> GeXo(e, st, IF a.odd THEN 1 ELSE 0)
       [] e.op = "ge_xquad" -> GeXo(e, st, -1)
       [] e.op = "ge_valid" ->
            Is(e, [r |-> "ok", b |-> ~a.inf /\ OnCurve(NatMod(Unhex(a.x), P), NatMod(Unhex(a.y), P))], st)
       [] e.op = "ecg" -> JPut(e, st, GMul(Unhex(a.k)))
       [] e.op = "tab_g" -> Rel(TabGOk(e), e, "odd multiples of G", st)
       [] e.op = "tab_gen" -> Rel(TabGenOk(e), e, "comb window", st)
       [] e.op = "tab_sum" -> Rel(TabSumOk(e), e, "offsets sum to infinity", st)
       [] e.op = "tab_same" -> Is(e, [r |-> "ok", b |-> TRUE], st)
       [] FeReads(e.op, a) # {} \/ e.op \in {"fe_raw", "fe_new", "fe_b32", "fe_int", "fe_clear"} ->
            IF \E i \in FeReads(e.op, a) : ~FHas(st, i) THEN Pre(st) ELSE FieldJudge(e, st)
       [] OTHER ->
            IF \E k \in DOMAIN GeReads(e.op, a) : st[GeReads(e.op, a)[k][1]][GeReads(e.op, a)[k][2]] = <<>>
            THEN Pre(st) ELSE PointJudge(e, st)
=============================================================================
