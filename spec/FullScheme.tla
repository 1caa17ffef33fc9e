----------------------------- MODULE FullScheme -----------------------------
(***************************************************************************)
(* The equations of SchemeLaws modulo the order of secp256k1, for all      *)
(* values, by the method of FullGroup: a polynomial of known degree in     *)
(* every variable that is zero on a larger grid is zero. The small curves  *)
(* (ToyEcdsa, AlgEcdsa, ToyKeys) have the comparisons and the retries as   *)
(* well, WordEcdsa has the comparisons at full size.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Secp256k1, BigNat, TLC

CONSTANT Which

N == Secp_N
Num(i) == OctetsOf(i, 32)
VAdd(a, b) == NatAddMod(a, b, N)
VNeg(a) == NatSubMod(<<>>, a, N)
VMul(a, b) == NatMulMod(a, b, N)
V == INSTANCE SchemeLaws WITH Add <- VAdd, Neg <- VNeg, Mul <- VMul, One <- Num(1)

Larger(a, b) == IF a > b THEN a ELSE b
Zero5 == <<0, 0, 0, 0, 0>>
DAdd(a, b) == [i \in 1..5 |-> Larger(a[i], b[i])]
DNeg(a) == a
DMul(a, b) == [i \in 1..5 |-> a[i] + b[i]]
D == INSTANCE SchemeLaws WITH Add <- DAdd, Neg <- DNeg, Mul <- DMul, One <- Zero5

Unit(c) == LET e(j) == [i \in 1..5 |-> IF i = j THEN 1 ELSE 0]
           IN [j \in 1..(V!Free(c) + 1) |-> e(j)]
Deg == [c \in Which |->
          LET e == D!Sides(c, Unit(c))
          IN [i \in 1..5 |-> LET all == {e[k][s][i] : k \in DOMAIN e, s \in 1..2}
                             IN CHOOSE d \in all : \A o \in all : o <= d]]
Points(c, i) == 1 + Deg[c][i] + (IF V!Inverse(c) = i THEN Deg[c][V!Free(c) + 1] ELSE 0)

InvOf == [i \in 1..20 |-> NatInvMod(Num(i), N)]
Holds(c, k) ==
  LET free == [i \in DOMAIN k |-> Num(k[i])]
      v == IF V!Inverse(c) = 0 THEN free ELSE Append(free, InvOf[k[V!Inverse(c)]])
      e == V!Sides(c, v)
  IN \A s \in DOMAIN e : NatEq(e[s][1], e[s][2])

VARIABLES claim, k
Init == claim \in Which /\ k = <<>>
Next == /\ Len(k) < V!Free(claim)
        /\ \E i \in 1..Points(claim, Len(k) + 1) : k' = Append(k, i)
        /\ UNCHANGED claim
Spec == Init /\ [][Next]_<<claim, k>>

Law == Len(k) = V!Free(claim) => Holds(claim, k)
=============================================================================
