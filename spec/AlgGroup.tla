------------------------------ MODULE AlgGroup ------------------------------
(***************************************************************************)
(* The coordinate formulas of the library on y^2 = x^3 + B over a small    *)
(* field, written as the library computes them: every field element comes  *)
(* with the magnitude its representation may have, and every field         *)
(* operation asserts what the field layer asks of its operands (product:   *)
(* magnitudes at most 8; sums and multiples: at most 31; negation: the     *)
(* declared magnitude covers the operand's). The state machine applies the *)
(* operations to each other's results, so all magnitudes and all           *)
(* coordinates that histories produce are visited, with every point and    *)
(* every denominator. Decides C19 for the formulas, the degenerate cases   *)
(* of the constant-time addition included.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS p, B, Full      \* prime, p = 3 mod 4. Full: every coordinate scaling of the second operand

F == 0..(p - 1)

(* ---- field elements: [v, m] ------------------------------------------------ *)
E(v, m) == [v |-> v % p, m |-> m]
Chk(c, what) == Assert(c, what)
Add(a, b) == IF Chk(a.m + b.m <= 31, <<"sum", a, b>>) THEN E(a.v + b.v, a.m + b.m) ELSE a
Neg(a, m) == IF Chk(a.m <= m /\ m + 1 <= 31, <<"negation", a, m>>) THEN E(p - a.v, m + 1) ELSE a
MulInt(a, k) == IF Chk(a.m * k <= 31, <<"multiple", a, k>>) THEN E(a.v * k, a.m * k) ELSE a
Mul(a, b) == IF Chk(a.m <= 8 /\ b.m <= 8, <<"product", a, b>>) THEN E(a.v * b.v, 1) ELSE a
Weak(a) == E(a.v, 1)
IsZero(a) == a.v = 0
FInt(k) == E(k, 1)

INSTANCE Formulas

RECURSIVE Pow(_, _)
Pow(v, e) == IF e = 0 THEN 1 ELSE (v * Pow(v, e - 1)) % p
InvT == [v \in F |-> Pow(v, p - 2)]
Inv(v) == InvT[v]

(* ---- points: the group law, by chords and tangents -------------------------- *)
Inf == <<>>
Affines == {q \in F \X F : (q[2] * q[2]) % p = (q[1] * q[1] * q[1] + B) % p}
Points == Affines \cup {Inf}
PNeg(a) == IF a = Inf THEN Inf ELSE <<a[1], (p - a[2]) % p>>
Line(a, b, l) == LET x == (l * l - a[1] - b[1]) % p IN <<x, (l * (a[1] - x) - a[2]) % p>>
PAdd(a, b) ==
  IF a = Inf THEN b ELSE IF b = Inf THEN a
  ELSE IF a[1] # b[1] THEN Line(a, b, ((b[2] - a[2]) * Inv((b[1] - a[1]) % p)) % p)
  ELSE IF a[2] # b[2] \/ a[2] = 0 THEN Inf
  ELSE Line(a, a, (3 * a[1] * a[1] * Inv((2 * a[2]) % p)) % p)

(* ---- coordinates --------------------------------------------------------------- *)
Den(a) == IF a.inf THEN Inf
          ELSE LET w == Inv(a.z.v) IN <<(a.x.v * w * w) % p, (a.y.v * w * w * w) % p>>
Sound(a) == a.inf \/ a.z.v # 0
ZeroE == E(0, 0)
JInf == J(ZeroE, ZeroE, ZeroE, TRUE)
Aff(q, m) == [x |-> E(q[1], m), y |-> E(q[2], m)]       \* an affine operand, not infinity

DegenerateNeeded == \E q \in Affines, r \in Affines :
  LET s == AddGeWith(FromAff(Aff(q, 1)), Aff(r, 1), Never) IN ~Sound(s) \/ Den(s) # PAdd(q, r)

ASSUME DegenerateNeeded

ToAff(a) == WithZinv(a, E(Inv(a.z.v), 1))
(* x of the point equals x? with a weakly normalised side *)
EqX(a, x) == Add(Neg(Mul(Sqr(a.z), x), 1), Weak(a.x)).v = 0

(* ---- histories ------------------------------------------------------------------------ *)
VARIABLE a
Start == {FromAff(Aff(q, 1)) : q \in Affines} \cup {JInf}
Init == a \in Start

(* second operands: with the largest magnitudes results have, and canonical ones *)
Scales == IF Full THEN F \ {0} ELSE {1, 2, p - 1}
Second == {JInf} \cup {J(E(q[1] * s * s, m[1]), E(q[2] * s * s * s, m[2]), E(s, m[3]), FALSE) :
                       q \in Affines, s \in Scales, m \in {<<1, 1, 1>>, <<6, 4, 2>>}}
AffSecond == {Aff(q, m) : q \in Affines, m \in {1, 2}}

(* the operand that stands for q with respect to w *)
Under(q, w) == LET v == Inv(w) IN [x |-> E(q[1] * v * v, 1), y |-> E(q[2] * v * v * v, 2)]

Step(j) == a' = j
Next ==
  \/ Step(Double(a).j)
  \/ Step(NegJ(a))
  \/ \E s \in F \ {0} : Step(Rescale(a, E(s, 1)))
  \/ \E b \in Second : Step(AddVar(a, b).j)
  \/ \E b \in AffSecond : Step(AddGeVar(a, b).j) \/ Step(AddGe(a, b))
  \/ \E q \in Affines, w \in Scales : Step(AddZinv(a, Under(q, w), E(w, 1)).j)
Spec == Init /\ [][Next]_a

RzOk(r) == r.rz.v * a.z.v % p = IF r.j.inf THEN 0 ELSE r.j.z.v
Law ==
  LET q == Den(a)
  IN /\ Sound(a) /\ q \in Points
     /\ LET d == Double(a) IN Sound(d.j) /\ Den(d.j) = PAdd(q, q) /\ (a.inf \/ RzOk(d))
     /\ Den(NegJ(a)) = PNeg(q)
     /\ \A b \in Second : LET r == AddVar(a, b)
                          IN Sound(r.j) /\ Den(r.j) = PAdd(q, Den(b)) /\ (a.inf \/ RzOk(r))
     /\ \A b \in AffSecond :
          LET bq == <<b.x.v, b.y.v>>
              r == AddGeVar(a, b)
              c == AddGe(a, b)
          IN /\ Sound(r.j) /\ Den(r.j) = PAdd(q, bq) /\ (a.inf \/ RzOk(r))
             /\ Sound(c) /\ Den(c) = PAdd(q, bq)
     /\ \A b \in Affines, w \in Scales : LET r == AddZinv(a, Under(b, w), E(w, 1)).j
                                          IN Sound(r) /\ Den(r) = PAdd(q, b)
     /\ ~a.inf => /\ LET t == ToAff(a) IN <<t.x.v, t.y.v>> = q
                  /\ \A x \in F : EqX(a, E(x, 1)) <=> x = q[1]
Magnitudes == a.x.m <= 8 /\ a.y.m <= 8 /\ a.z.m <= 8
=============================================================================
