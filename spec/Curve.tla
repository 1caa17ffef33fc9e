------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* A short Weierstrass curve y^2 = x^3 + B over F_P with a group of prime  *)
(* order N generated by G, for P = 3 mod 4. All parameters are octet       *)
(* strings of length L, so the same modules describe secp256k1 (L = 32)    *)
(* and small curves of the same shape that TLC can enumerate (L = 1).      *)
(***************************************************************************)
EXTENDS Ec

CONSTANTS L, P, N, B, GX, GY

Zero == Zeros(L)
One == Fit(<<1>>, L)

(* ---- the base field ---------------------------------------------------- *)
FAdd(a, b) == NatAddMod(a, b, P)
FSub(a, b) == NatSubMod(a, b, P)
FMul(a, b) == NatMulMod(a, b, P)
FSqr(a) == NatMulMod(a, a, P)
FNeg(a) == NatSubMod(<<>>, a, P)
FInv(a) == NatInvMod(a, P)
FSmall(k) == NatMod(OctetsOf(k, 4), P)
FMulInt(a, k) == NatMulMod(a, OctetsOf(k, 4), P)
PPlus1Div4 == NatShr(Fit(PureAdd(P, <<1>>), L + 1), 2)
FRoot(a) == NatPowMod(a, PPlus1Div4, P)        \* a root of a or of -a, itself a square
FIsSquare(a) == FSqr(FRoot(a)) = NatMod(a, P)
IsFieldEnc(b) == Len(b) = L /\ NatLt(b, P)

(* ---- the scalar field --------------------------------------------------- *)
SAdd(a, b) == NatAddMod(a, b, N)
SSub(a, b) == NatSubMod(a, b, N)
SMul(a, b) == NatMulMod(a, b, N)
SNeg(a) == NatSubMod(<<>>, a, N)
SInv(a) == NatInvMod(a, N)
SRed(a) == NatMod(a, N)
HalfN == NatShr(N, 1)                          \* (N - 1) / 2
SHigh(a) == NatLt(HalfN, a)
IsScalarEnc(b) == Len(b) = L /\ NatLt(b, N)
IsSecretEnc(b) == IsScalarEnc(b) /\ ~NatIsZero(b)

(* ---- the group ----------------------------------------------------------- *)
Inf == <<>>
G == <<GX, GY>>
Pt(x, y) == <<x, y>>
CurveRhs(x) == FAdd(FMul(FSqr(x), x), B)
OnCurve(x, y) == FSqr(y) = CurveRhs(x)
IsPoint(p) == p = Inf \/ (IsFieldEnc(p[1]) /\ IsFieldEnc(p[2]) /\ OnCurve(p[1], p[2]))

PNeg(p) == IF p = Inf THEN Inf ELSE <<p[1], FNeg(p[2])>>

PAdd(p, q) == EcAdd(p, q, P)
PDouble(p) == PAdd(p, p)
PSub(p, q) == PAdd(p, PNeg(q))
PSum(ps) == FoldLeft(PAdd, Inf, ps)

PMul(k, p) == EcMul(k, p, P)
GMul(k) == PMul(k, G)

(* The points with x coordinate x: y parity 0 or 1. *)
Liftable(x) == FIsSquare(CurveRhs(x))
Lift(x, odd) ==
  LET y == FRoot(CurveRhs(x))
  IN IF NatOdd(y) = odd THEN <<NatMod(x, P), y>> ELSE <<NatMod(x, P), FNeg(y)>>
=============================================================================
