----------------------------- MODULE GroupLaws -----------------------------
(***************************************************************************)
(* What each coordinate formula has to give, as equations between          *)
(* polynomials in the coordinates (or in a parametrisation of the points   *)
(* concerned): Sides(c, v) are the pairs <<computed, required>> of claim c *)
(* at the variables v.                                                     *)
(***************************************************************************)
EXTENDS Formulas, Sequences

Sub(a, b) == Add(a, Neg(b, 99))
Cube(a) == Mul(Sqr(a), a)
At(x, y, z) == J(Mul(x, Sqr(z)), Mul(y, Cube(z)), z, FALSE)      \* (x, y) with denominator z

(* the third point of slope l through (x1, y1), reflected *)
Chord(x1, y1, x2, l) == LET x == Sub(Sub(Sqr(l), x1), x2) IN [x |-> x, y |-> Sub(Mul(l, Sub(x1, x)), y1)]
(* a denotes q, with denominator z *)
Denotes(a, q, z) == <<<<a.z, z>>, <<a.x, Mul(q.x, Sqr(z))>>, <<a.y, Mul(q.y, Cube(z))>>>>
RzOf(r, z, z3) == <<<<Mul(r.rz, z), z3>>>>

(* any two points with different x: (x, y) and (x + d, y + l d) *)
Other(x, y, d, l) == [x |-> Add(x, d), y |-> Add(y, Mul(l, d))]

Claims == {"double", "var", "mixed", "zinv", "complete", "degenerate", "negate", "rescale", "isomorphic", "table", "globalz"}
Controls == {"unpatched", "swapped"}
(* names of the variables; a variable in the second list is the inverse of (4 times) the one at its index *)
Free(c) == CASE c = "double" -> 3 [] c = "var" -> 6 [] c = "mixed" -> 5 [] c = "zinv" -> 6
             [] c = "complete" -> 4 [] c \in {"degenerate", "unpatched", "swapped"} -> 3
             [] c = "negate" -> 3 [] c = "rescale" -> 4
             [] c = "isomorphic" -> 6 [] c = "table" -> 6 [] c = "globalz" -> 5
(* the free variable whose inverse is an additional, last variable: <<index, factor>> *)
Inverse(c) == CASE c = "double" -> <<2, 2>> [] c = "zinv" -> <<6, 1>> [] c = "complete" -> <<3, 4>> [] OTHER -> <<>>

Sides(c, v, beta) ==
  CASE c = "double" ->          \* v = x, y, z, 1 / 2y
       LET r == Double(At(v[1], v[2], v[3]))
           l == Mul(MulInt(Sqr(v[1]), 3), v[4])
           z3 == Mul(MulInt(v[2], 2), Sqr(Sqr(v[3])))
       IN Denotes(r.j, Chord(v[1], v[2], v[1], l), z3) \o RzOf(r, v[3], z3)
    [] c = "var" ->             \* v = x1, y1, d, l, z1, z2
       LET b == Other(v[1], v[2], v[3], v[4])
           r == AddVar(At(v[1], v[2], v[5]), At(b.x, b.y, v[6]))
           z3 == Mul(v[3], Mul(Cube(v[5]), Cube(v[6])))
       IN Denotes(r.j, Chord(v[1], v[2], b.x, v[4]), z3) \o RzOf(r, v[5], z3)
    [] c = "mixed" ->           \* v = x1, y1, d, l, z1
       LET b == Other(v[1], v[2], v[3], v[4])
           r == AddGeVar(At(v[1], v[2], v[5]), b)
           z3 == Mul(v[3], Cube(v[5]))
       IN Denotes(r.j, Chord(v[1], v[2], b.x, v[4]), z3) \o RzOf(r, v[5], z3)
    [] c = "zinv" ->            \* v = x1, y1, d, l, z1, w, 1 / w
       LET b == Other(v[1], v[2], v[3], v[4])
           r == AddZinv(At(v[1], v[2], v[5]), [x |-> Mul(b.x, Sqr(v[7])), y |-> Mul(b.y, Cube(v[7]))], v[6])
       IN Denotes(r.j, Chord(v[1], v[2], b.x, v[4]), Mul(v[3], Cube(v[5])))
    [] c = "complete" ->        \* v = x1, x2, s, z, 1 / 4s: any two points of one curve with y1 + y2 = 2 s # 0,
                                \* the same point twice included
       LET r == Add(Add(Sqr(v[1]), Mul(v[1], v[2])), Sqr(v[2]))
           e == Mul(Mul(r, Sub(v[2], v[1])), v[5])
           y1 == Sub(v[3], e)
           b == [x |-> v[2], y |-> Add(v[3], e)]
       IN Denotes(AddGeWith(At(v[1], y1, v[4]), b, Never),
                  Chord(v[1], y1, v[2], MulInt(Mul(r, v[5]), 2)), Mul(MulInt(v[3], 4), Sqr(Sqr(v[4]))))
    [] c \in {"degenerate", "unpatched", "swapped"} ->
                                \* v = x, y, z: (x, y) and (beta x, -y), the only pairs with y1 + y2 = 0
                                \* and different x: both equations multiplied by powers of (1 - beta) x
       LET x2 == Mul(beta, v[1])
           dx == Sub(v[1], x2)
           b == [x |-> x2, y |-> IF c = "swapped" THEN v[2] ELSE Neg(v[2], 1)]
           a == IF c = "unpatched" THEN AddGeWith(At(v[1], v[2], v[3]), b, Never)
                ELSE AddGeWith(At(v[1], v[2], v[3]), b, Always)
           n == MulInt(v[2], 2)                               \* slope n / dx
           xn == Sub(Sqr(n), Mul(Add(v[1], x2), Sqr(dx)))      \* x3 dx^2
           yn == Sub(Mul(n, Sub(Mul(v[1], Sqr(dx)), xn)), Mul(v[2], Cube(dx)))
           z3 == MulInt(Mul(dx, Cube(v[3])), 2)
       IN <<<<a.z, z3>>, <<Mul(a.x, Sqr(dx)), Mul(xn, Sqr(z3))>>, <<Mul(a.y, Cube(dx)), Mul(yn, Cube(z3))>>>>
    [] c = "isomorphic" ->      \* v = x1, y1, d, l, z1, w: the odd multiples are built on the curve on which
                                \* (w^2 x, w^3 y) stands for (x, y), and the last z is multiplied by w
       LET b == Other(v[1], v[2], v[3], v[4])
           on == At(v[1], v[2], Mul(v[5], v[6]))
           bw == At(b.x, b.y, v[6])
           r == AddGeVar([on EXCEPT !.z = v[5]], [x |-> bw.x, y |-> bw.y])
           z3 == Mul(Mul(v[3], Sqr(v[6])), Cube(v[5]))
       IN Denotes([r.j EXCEPT !.z = Mul(r.j.z, v[6])], Chord(v[1], v[2], b.x, v[4]), Mul(z3, v[6]))
          \o RzOf(r, v[5], z3)
    [] c = "table" ->           \* v = x, y, z, two ratios, zi: zi * (the last z) = 1 leaves (x, y)
       LET zi == Mul(Mul(v[6], v[5]), v[4])
           r == WithZinv(At(v[1], v[2], v[3]), zi)
           u == Mul(Mul(Mul(v[3], v[4]), v[5]), v[6])
       IN <<<<r.x, Mul(v[1], Sqr(u))>>, <<r.y, Mul(v[2], Cube(u))>>>>
    [] c = "globalz" ->         \* v = x, y, z, two ratios: the same denominator as the last
       LET r == WithZinv(At(v[1], v[2], v[3]), Mul(v[5], v[4]))
           last == Mul(Mul(v[3], v[4]), v[5])
           o == At(v[1], v[2], last)
       IN <<<<r.x, o.x>>, <<r.y, o.y>>>>
    [] c = "negate" -> Denotes(NegJ(At(v[1], v[2], v[3])), [x |-> v[1], y |-> Neg(v[2], 1)], v[3])
    [] c = "rescale" -> Denotes(Rescale(At(v[1], v[2], v[3]), v[4]), [x |-> v[1], y |-> v[2]], Mul(v[3], v[4]))
=============================================================================
