------------------------------ MODULE AlgField ------------------------------
(***************************************************************************)
(* The redundant representation of field elements: limbs of W bits, a top  *)
(* limb of T bits, p = 2^(2W + T) - (C0 + C1 * 2^W), as on the real field  *)
(* with ten limbs. An element of magnitude m has limbs up to 2m times the  *)
(* full limb. Normalisation, its weak form, the zero tests, negation and   *)
(* comparison are written limb by limb as the library has them, and        *)
(* decided for every representation up to magnitude MaxM (C18).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS W, T, C0, C1, MaxM

M == 2^W - 1
TM == 2^T - 1
p == 2^(2 * W + T) - (C0 + C1 * 2^W)
PL == <<p % 2^W, (p \div 2^W) % 2^W, p \div 2^(2 * W)>>
Val(l) == l[1] + l[2] * 2^W + l[3] * 2^(2 * W)

Lo(x) == x % 2^W
Hi(x) == x \div 2^W

(* fold what is above the top limb, then carry once through *)
Fold(l, x, t3) ==
  LET a == l[1] + x * C0
      b == l[2] + x * C1 + Hi(a)
      c == t3 + Hi(b)
  IN <<Lo(a), Lo(b), c>>
Weak(l) == Fold(l, l[3] \div 2^T, l[3] % 2^T)

(* the second pass folds at most one more p *)
AtLeastP(t) ==
  \/ t[3] \div 2^T > 0
  \/ t[3] = TM /\ t[2] + C1 + Hi(t[1] + C0) > M
Normal(l) ==
  LET t == Weak(l)
      x == IF AtLeastP(t) THEN 1 ELSE 0
      u == Fold(t, x, t[3])
  IN <<u[1], u[2], u[3] % 2^T>>

(* zero tests: the weak form is 0 or p *)
ZeroTest(l) == LET t == Weak(l) IN t = <<0, 0, 0>> \/ t = PL
Negate(l, k) == [i \in 1..3 |-> PL[i] * 2 * (k + 1) - l[i]]


VARIABLES a, m, done
Init == /\ m \in 1..MaxM /\ done = FALSE
        /\ a \in {<<x, 0, 0>> : x \in 0..(2 * MaxM * M)} /\ a[1] <= 2 * m * M
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, m>>
Spec == Init /\ [][Next]_<<a, m, done>>

Right(l) ==
  LET v == Val(l)
      w == Weak(l)
      n == Normal(l)
      g == Negate(l, m)
  IN /\ Val(w) % p = v % p /\ w[1] <= M /\ w[2] <= M /\ w[3] <= 2 * TM
     /\ w[3] \div 2^(T + 1) = 0                       \* asserted by the library
     /\ Val(n) = v % p /\ n[1] <= M /\ n[2] <= M /\ n[3] <= TM
     /\ ZeroTest(l) <=> v % p = 0
     /\ \A i \in 1..3 : g[i] >= 0
     /\ g[1] <= 2 * (m + 1) * M /\ g[2] <= 2 * (m + 1) * M /\ g[3] <= 2 * (m + 1) * TM
     /\ (Val(g) + v) % p = 0
Holds == done => \A y \in 0..(2 * m * M), z \in 0..(2 * m * TM) : Right(<<a[1], y, z>>)
=============================================================================
