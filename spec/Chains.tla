------------------------------ MODULE Chains ------------------------------
(* The powers to which the library raises a number to invert it or to take its
   root: an exponent starts as 1, squaring doubles it and multiplying adds.  Each
   chain must arrive at the exponent that Fermat asks for, so that with an exact
   product (WordMul, WordField) the inverse and the root are right for every
   operand.  The invariants called Bad.. have one squaring more or less. *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  nothing

P == 115792089237316195423570985008687907853269984665640564039457584007908834671663
N == 115792089237316195423570985008687907852837564279074904382605163141518161494337

Init == nothing = 0
Next == UNCHANGED nothing

\* k squarings, then a product with y
Go(x, k, y) == x * 2^k + y

(* ---- of the field ------------------------------------------------------------- *)
F2 == Go(1, 1, 1)
F3 == Go(F2, 1, 1)
F6 == Go(F3, 3, F3)
F9 == Go(F6, 3, F3)
F11 == Go(F9, 2, F2)
F22 == Go(F11, 11, F11)
F44 == Go(F22, 22, F22)
F88 == Go(F44, 44, F44)
F176 == Go(F88, 88, F88)
F220 == Go(F176, 44, F44)
F223 == Go(F220, 3, F3)
FInv(last) == Go(Go(Go(Go(F223, 23, F22), 5, 1), 3, F2), last, 1)
FRoot(last) == Go(Go(Go(F223, 23, F22), 6, F2), last, 0)
FieldInverseRight == FInv(2) = P - 2
FieldRootRight == 4 * FRoot(2) = P + 1 /\ P % 4 = 3

(* ---- of scalars ---------------------------------------------------------------- *)
U2 == 2
X2 == U2 + 1
U5 == U2 + X2
X3 == U5 + U2
U9 == X3 + U2
U11 == U9 + U2
U13 == U11 + U2
X6 == Go(U13, 2, U11)
X8 == Go(X6, 2, X2)
X14 == Go(X8, 6, X6)
X28 == Go(X14, 14, X14)
X56 == Go(X28, 28, X28)
X112 == Go(X56, 56, X56)
X126 == Go(X112, 14, X14)
T1 == Go(X126, 3, U5)
T2 == Go(T1, 4, X3)
T3 == Go(T2, 4, U5)
T4 == Go(T3, 5, U11)
T5 == Go(T4, 4, U11)
T6 == Go(T5, 4, X3)
T7 == Go(T6, 5, X3)
T8 == Go(T7, 6, U13)
T9 == Go(T8, 4, U5)
T10 == Go(T9, 3, X3)
T11 == Go(T10, 5, U9)
T12 == Go(T11, 6, U5)
T13 == Go(T12, 10, X3)
T14 == Go(T13, 4, X3)
T15 == Go(T14, 9, X8)
T16 == Go(T15, 5, U9)
T17 == Go(T16, 6, U11)
T18 == Go(T17, 4, U13)
T19 == Go(T18, 5, X2)
T20 == Go(T19, 6, U13)
T21 == Go(T20, 10, U13)
T22 == Go(T21, 4, U9)
T23 == Go(T22, 6, 1)
SInv(last) == Go(T23, last, X6)
ScalarInverseRight == SInv(8) = N - 2

(* ---- slips --------------------------------------------------------------------- *)
BadFieldInverse == FInv(3) = P - 2
BadFieldRoot == 4 * FRoot(1) = P + 1
BadScalarInverse == SInv(7) = N - 2
=============================================================================
