----------------------------- MODULE FullGroup -----------------------------
(***************************************************************************)
(* The coordinate formulas over the field of secp256k1 itself, for every   *)
(* coordinate. Every claim of GroupLaws is an equation between polynomials *)
(* whose degree in each variable is computed here by evaluating the same   *)
(* formulas with degrees in place of numbers; an equation of degree at     *)
(* most n_i in variable i that holds on a grid of n_i + 1 values of each   *)
(* variable holds everywhere (a polynomial with more roots than its degree *)
(* is zero). A variable that occurs with its inverse counts with the sum   *)
(* of both degrees, on nonzero values. So the states are the points of     *)
(* finite grids, and what TLC establishes on all of them is C19 for the    *)
(* formulas at full size, where AlgGroup has all points of small curves,   *)
(* with the magnitudes.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Secp256k1, BigNat, TLC

CONSTANT Which          \* the claims

P == Secp_P
Beta == Unhex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
Third == Unhex("55555555555555555555555555555555555555555555555555555554fffffeba")     \* (P - 1) / 3

Larger(a, b) == IF a > b THEN a ELSE b

(* ---- the field ---------------------------------------------------------------- *)
VAdd(a, b) == NatAddMod(a, b, P)
VNeg(a, m) == NatSubMod(<<>>, a, P)
VInt(k) == OctetsOf(k, 32)
VMul(a, b) == NatMulMod(a, b, P)
VMulInt(a, k) == NatMulMod(a, VInt(k), P)
Same(a) == a
No(a) == FALSE
V == INSTANCE GroupLaws WITH Add <- VAdd, Neg <- VNeg, MulInt <- VMulInt, Mul <- VMul, Weak <- Same, FInt <- VInt, IsZero <- No

(* ---- degrees: the degree in each of 7 variables --------------------------------- *)
Zero7 == <<0, 0, 0, 0, 0, 0, 0>>
DAdd(a, b) == [i \in 1..7 |-> Larger(a[i], b[i])]
DNeg(a, m) == a
DInt(k) == Zero7
DMul(a, b) == [i \in 1..7 |-> a[i] + b[i]]
DMulInt(a, k) == a
D == INSTANCE GroupLaws WITH Add <- DAdd, Neg <- DNeg, MulInt <- DMulInt, Mul <- DMul, Weak <- Same, FInt <- DInt, IsZero <- No

Unit == [j \in 1..7 |-> [i \in 1..7 |-> IF i = j THEN 1 ELSE 0]]
Deg == [c \in Which |->
          LET e == D!Sides(c, Unit, Zero7)
          IN [i \in 1..7 |-> LET all == {e[k][s][i] : k \in DOMAIN e, s \in 1..2}
                             IN CHOOSE d \in all : \A o \in all : o <= d]]
Points(c, i) == 1 + Deg[c][i] + (IF V!Inverse(c) # <<>> /\ V!Inverse(c)[1] = i THEN Deg[c][V!Free(c) + 1] ELSE 0)

InvOf == [n \in {1, 2, 4} |-> [i \in 1..60 |-> NatInvMod(VInt(n * i), P)]]
Holds(c, k) ==
  LET w == V!Inverse(c)
      free == [i \in DOMAIN k |-> VInt(k[i])]
      v == IF w = <<>> THEN free ELSE Append(free, InvOf[w[2]][k[w[1]]])
      e == V!Sides(c, v, Beta)
  IN \A s \in DOMAIN e : NatEq(e[s][1], e[s][2])

ASSUME BetaIsARoot == /\ ~NatEq(Beta, VInt(1))
                      /\ NatEq(NatAddMod(NatAddMod(NatMulMod(Beta, Beta, P), Beta, P), VInt(1), P), <<>>)
(* no point has x = 0 or y = 0: 7 is not a square, -7 is not a cube *)
ASSUME NoZeroX == ~NatEq(NatPowMod(VInt(7), NatShr(P, 1), P), VInt(1))
ASSUME NoZeroY == /\ NatEq(NatMulMod(Third, VInt(3), P), NatSubMod(<<>>, VInt(1), P))
                  /\ ~NatEq(NatPowMod(VNeg(VInt(7), 1), Third, P), VInt(1))

VARIABLES claim, k
Init == claim \in Which /\ k = <<>>
Next == /\ Len(k) < V!Free(claim) - 1
        /\ \E i \in 1..Points(claim, Len(k) + 1) : k' = Append(k, i)
        /\ UNCHANGED claim
Spec == Init /\ [][Next]_<<claim, k>>

Law == Len(k) = V!Free(claim) - 1 => \A i \in 1..Points(claim, Len(k) + 1) : Holds(claim, Append(k, i))
=============================================================================
