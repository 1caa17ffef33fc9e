------------------------------ MODULE WordMul ------------------------------
(* Multiplication of scalars at full size: the three-word accumulator of the
   column macros, the columns of the 512-bit product, and the three folds that
   bring the product below N; decided by Apalache for all values.

   c0, c1, c2 are the accumulator and t one product of two words in the
   invariants on the macros; p0..p14 are column sums (column k of an eight by
   eight product holds min(k, 14 - k) + 1 products); l0..l15 are the words of
   a product in those on the reduction. *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  c0,
  \* @type: Int;
  c1,
  \* @type: Int;
  c2,
  \* @type: Int;
  t,
  \* @type: Int;
  p0,
  \* @type: Int;
  p1,
  \* @type: Int;
  p2,
  \* @type: Int;
  p3,
  \* @type: Int;
  p4,
  \* @type: Int;
  p5,
  \* @type: Int;
  p6,
  \* @type: Int;
  p7,
  \* @type: Int;
  p8,
  \* @type: Int;
  p9,
  \* @type: Int;
  p10,
  \* @type: Int;
  p11,
  \* @type: Int;
  p12,
  \* @type: Int;
  p13,
  \* @type: Int;
  p14,
  \* @type: Int;
  l0,
  \* @type: Int;
  l1,
  \* @type: Int;
  l2,
  \* @type: Int;
  l3,
  \* @type: Int;
  l4,
  \* @type: Int;
  l5,
  \* @type: Int;
  l6,
  \* @type: Int;
  l7,
  \* @type: Int;
  l8,
  \* @type: Int;
  l9,
  \* @type: Int;
  l10,
  \* @type: Int;
  l11,
  \* @type: Int;
  l12,
  \* @type: Int;
  l13,
  \* @type: Int;
  l14,
  \* @type: Int;
  l15

B == 4294967296
N == 115792089237316195423570985008687907852837564279074904382605163141518161494337
Lo(x) == x % B
Hi(x) == x \div B
Word(x) == 0 <= x /\ x < B
One(c) == IF c THEN 1 ELSE 0

\* the number that eight words stand for, least significant first
Val(w0, w1, w2, w3, w4, w5, w6, w7) ==
  w0 + B * w1
  + 18446744073709551616 * w2
  + 79228162514264337593543950336 * w3
  + 340282366920938463463374607431768211456 * w4
  + 1461501637330902918203684832716283019655932542976 * w5
  + 6277101735386680763835789423207666416102355444464034512896 * w6
  + 26959946667150639794667015087019630673637144422540572481103610249216 * w7

\* check_overflow: words against those of N from the top, keeping "below" and "above" without branching
Over(w0, w1, w2, w3, w4, w5, w6, w7) ==
  LET no5  == w7 < 4294967295 \/ w6 < 4294967295 \/ w5 < 4294967295
      no4  == no5 \/ w4 < 4294967294
      yes4 == w4 > 4294967294 /\ ~no4
      no3  == no4 \/ (w3 < 3132021990 /\ ~yes4)
      yes3 == yes4 \/ (w3 > 3132021990 /\ ~no3)
      no2  == no3 \/ (w2 < 2940772411 /\ ~yes3)
      yes2 == yes3 \/ (w2 > 2940772411 /\ ~no2)
      no1  == no2 \/ (w1 < 3218235020 /\ ~yes2)
      yes1 == yes2 \/ (w1 > 3218235020 /\ ~no1)
  IN yes1 \/ (w0 >= 3493216577 /\ ~no1)

ProductMax == 18446744065119617025   \* of two words

Init ==
  /\ c0 \in Int /\ Word(c0)
  /\ c1 \in Int /\ Word(c1)
  /\ c2 \in Int /\ Word(c2)
  /\ l0 \in Int /\ Word(l0)
  /\ l1 \in Int /\ Word(l1)
  /\ l2 \in Int /\ Word(l2)
  /\ l3 \in Int /\ Word(l3)
  /\ l4 \in Int /\ Word(l4)
  /\ l5 \in Int /\ Word(l5)
  /\ l6 \in Int /\ Word(l6)
  /\ l7 \in Int /\ Word(l7)
  /\ l8 \in Int /\ Word(l8)
  /\ l9 \in Int /\ Word(l9)
  /\ l10 \in Int /\ Word(l10)
  /\ l11 \in Int /\ Word(l11)
  /\ l12 \in Int /\ Word(l12)
  /\ l13 \in Int /\ Word(l13)
  /\ l14 \in Int /\ Word(l14)
  /\ l15 \in Int /\ Word(l15)
  /\ t \in Int /\ 0 <= t /\ t <= ProductMax
  /\ p0 \in Int /\ 0 <= p0 /\ p0 <= 1 * ProductMax
  /\ p1 \in Int /\ 0 <= p1 /\ p1 <= 2 * ProductMax
  /\ p2 \in Int /\ 0 <= p2 /\ p2 <= 3 * ProductMax
  /\ p3 \in Int /\ 0 <= p3 /\ p3 <= 4 * ProductMax
  /\ p4 \in Int /\ 0 <= p4 /\ p4 <= 5 * ProductMax
  /\ p5 \in Int /\ 0 <= p5 /\ p5 <= 6 * ProductMax
  /\ p6 \in Int /\ 0 <= p6 /\ p6 <= 7 * ProductMax
  /\ p7 \in Int /\ 0 <= p7 /\ p7 <= 8 * ProductMax
  /\ p8 \in Int /\ 0 <= p8 /\ p8 <= 7 * ProductMax
  /\ p9 \in Int /\ 0 <= p9 /\ p9 <= 6 * ProductMax
  /\ p10 \in Int /\ 0 <= p10 /\ p10 <= 5 * ProductMax
  /\ p11 \in Int /\ 0 <= p11 /\ p11 <= 4 * ProductMax
  /\ p12 \in Int /\ 0 <= p12 /\ p12 <= 3 * ProductMax
  /\ p13 \in Int /\ 0 <= p13 /\ p13 <= 2 * ProductMax
  /\ p14 \in Int /\ 0 <= p14 /\ p14 <= 1 * ProductMax

Next == UNCHANGED <<c0, c1, c2, t, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, l0, l1, l2, l3, l4, l5, l6, l7, l8, l9, l10, l11, l12, l13, l14, l15>>

Acc == c0 + B * c1 + 18446744073709551616 * c2
Three(x, y, z) == x + B * y + 18446744073709551616 * z
Top == 79228162514264337593543950336

\* muladd: + a * b
MuladdRight ==
  LET tl == Lo(t)
      n0 == Lo(c0 + tl)
      th == Lo(Hi(t) + One(n0 < tl))
      n1 == Lo(c1 + th)
      n2 == Lo(c2 + One(n1 < th))
  IN  Acc + t < Top => Three(n0, n1, n2) = Acc + t

\* muladd_fast: + a * b where the sum is known to fit in two words
MuladdFastRight ==
  LET tl == Lo(t)
      n0 == Lo(c0 + tl)
      th == Lo(Hi(t) + One(n0 < tl))
      n1 == Lo(c1 + th)
  IN  c0 + B * c1 + t < 18446744073709551616 => n0 + B * n1 = c0 + B * c1 + t

\* muladd2: + 2 * a * b, with a carry out of the doubled high word, and one out of it when the low words carry
Muladd2(last) ==
  LET tl   == Lo(t)
      th   == Hi(t)
      th2  == Lo(th + th)
      d2   == Lo(c2 + One(th2 < th))
      tl2  == Lo(tl + tl)
      th3  == Lo(th2 + One(tl2 < tl))
      n0   == Lo(c0 + tl2)
      th4  == Lo(th3 + One(n0 < tl2))
      e2   == IF last THEN Lo(d2 + One(n0 < tl2 /\ th4 = 0)) ELSE d2
      n1   == Lo(c1 + th4)
      n2   == Lo(e2 + One(n1 < th4))
  IN  Acc + 2 * t < Top => Three(n0, n1, n2) = Acc + 2 * t
Muladd2Right == Muladd2(TRUE)
BadMuladd2 == Muladd2(FALSE)

\* sumadd: + a (here l0)
SumaddRight ==
  LET n0   == Lo(c0 + l0)
      over == One(n0 < l0)
      n1   == Lo(c1 + over)
      n2   == Lo(c2 + One(n1 < over))
  IN  Acc + l0 < Top => Three(n0, n1, n2) = Acc + l0
SumaddFastRight ==
  LET n0 == Lo(c0 + l0)
      n1 == Lo(c1 + One(n0 < l0))
  IN  c0 + B * c1 + l0 < 18446744073709551616 => n0 + B * n1 = c0 + B * c1 + l0

\* mul_512 and sqr_512: column by column; the accumulator fits, and the fast forms are used where two words do
ColumnsRight ==
  LET s0  == p0
      s1  == p1 + Hi(s0)
      s2  == p2 + Hi(s1)
      s3  == p3 + Hi(s2)
      s4  == p4 + Hi(s3)
      s5  == p5 + Hi(s4)
      s6  == p6 + Hi(s5)
      s7  == p7 + Hi(s6)
      s8  == p8 + Hi(s7)
      s9  == p9 + Hi(s8)
      s10 == p10 + Hi(s9)
      s11 == p11 + Hi(s10)
      s12 == p12 + Hi(s11)
      s13 == p13 + Hi(s12)
      s14 == p14 + Hi(s13)
  IN  /\ s0 < 18446744073709551616 /\ s14 < 18446744073709551616
      /\ s1 < Top
      /\ s2 < Top
      /\ s3 < Top
      /\ s4 < Top
      /\ s5 < Top
      /\ s6 < Top
      /\ s7 < Top
      /\ s8 < Top
      /\ s9 < Top
      /\ s10 < Top
      /\ s11 < Top
      /\ s12 < Top
      /\ s13 < Top
      /\ Hi(s14) < B
      /\ 1 * Lo(s0)
         + 4294967296 * Lo(s1)
         + 18446744073709551616 * Lo(s2)
         + 79228162514264337593543950336 * Lo(s3)
         + 340282366920938463463374607431768211456 * Lo(s4)
         + 1461501637330902918203684832716283019655932542976 * Lo(s5)
         + 6277101735386680763835789423207666416102355444464034512896 * Lo(s6)
         + 26959946667150639794667015087019630673637144422540572481103610249216 * Lo(s7)
         + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * Lo(s8)
         + 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 * Lo(s9)
         + 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 * Lo(s10)
         + 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 * Lo(s11)
         + 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 * Lo(s12)
         + 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 * Lo(s13)
         + 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 * Lo(s14)
         + 3121748550315992231381597229793166305748598142664971150859156959625371738819765620120306103063491971159826931121406622895447975679288285306290176 * Hi(s14)
         = 1 * p0
         + 4294967296 * p1
         + 18446744073709551616 * p2
         + 79228162514264337593543950336 * p3
         + 340282366920938463463374607431768211456 * p4
         + 1461501637330902918203684832716283019655932542976 * p5
         + 6277101735386680763835789423207666416102355444464034512896 * p6
         + 26959946667150639794667015087019630673637144422540572481103610249216 * p7
         + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * p8
         + 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 * p9
         + 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 * p10
         + 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 * p11
         + 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 * p12
         + 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 * p13
         + 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 * p14

\* reduce_512.  NC = 2^256 - N has 129 bits; the words of NC are multiplied into those above 2^256, three times.
L == l0
           + 4294967296 * l1
           + 18446744073709551616 * l2
           + 79228162514264337593543950336 * l3
           + 340282366920938463463374607431768211456 * l4
           + 1461501637330902918203684832716283019655932542976 * l5
           + 6277101735386680763835789423207666416102355444464034512896 * l6
           + 26959946667150639794667015087019630673637144422540572481103610249216 * l7
           + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * l8
           + 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 * l9
           + 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 * l10
           + 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 * l11
           + 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 * l12
           + 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 * l13
           + 726838724295606890549323807888004534353641360687318060281490199180639288113397923326191050713763565560762521606266177933534601628614656 * l14
           + 3121748550315992231381597229793166305748598142664971150859156959625371738819765620120306103063491971159826931121406622895447975679288285306290176 * l15
LHigh == 1 * l8
           + 4294967296 * l9
           + 18446744073709551616 * l10
           + 79228162514264337593543950336 * l11
           + 340282366920938463463374607431768211456 * l12
           + 1461501637330902918203684832716283019655932542976 * l13
           + 6277101735386680763835789423207666416102355444464034512896 * l14
           + 26959946667150639794667015087019630673637144422540572481103610249216 * l15

\* 512 bits into 385
Fold1Right ==
  LET s0  == l0 + 801750719 * l8
      s1  == l1 + 801750719 * l9 + 1076732275 * l8 + Hi(s0)
      s2  == l2 + 801750719 * l10 + 1076732275 * l9 + 1354194884 * l8 + Hi(s1)
      s3  == l3 + 801750719 * l11 + 1076732275 * l10 + 1354194884 * l9 + 1162945305 * l8 + Hi(s2)
      s4  == l4 + 801750719 * l12 + 1076732275 * l11 + 1354194884 * l10 + 1162945305 * l9 + l8 + Hi(s3)
      s5  == l5 + 801750719 * l13 + 1076732275 * l12 + 1354194884 * l11 + 1162945305 * l10 + l9 + Hi(s4)
      s6  == l6 + 801750719 * l14 + 1076732275 * l13 + 1354194884 * l12 + 1162945305 * l11 + l10 + Hi(s5)
      s7  == l7 + 801750719 * l15 + 1076732275 * l14 + 1354194884 * l13 + 1162945305 * l12 + l11 + Hi(s6)
      s8  == 1076732275 * l15 + 1354194884 * l14 + 1162945305 * l13 + l12 + Hi(s7)
      s9  == 1354194884 * l15 + 1162945305 * l14 + l13 + Hi(s8)
      s10 == 1162945305 * l15 + l14 + Hi(s9)
      s11 == l15 + Hi(s10)
      m0  == Lo(s0)
      m1  == Lo(s1)
      m2  == Lo(s2)
      m3  == Lo(s3)
      m4  == Lo(s4)
      m5  == Lo(s5)
      m6  == Lo(s6)
      m7  == Lo(s7)
      m8  == Lo(s8)
      m9  == Lo(s9)
      m10 == Lo(s10)
      m11 == Lo(s11)
      m12 == Hi(s11)
  IN  /\ m12 <= 1 /\ s0 < 18446744073709551616 /\ s11 < 18446744073709551616
      /\ m0
           + 4294967296 * m1
           + 18446744073709551616 * m2
           + 79228162514264337593543950336 * m3
           + 340282366920938463463374607431768211456 * m4
           + 1461501637330902918203684832716283019655932542976 * m5
           + 6277101735386680763835789423207666416102355444464034512896 * m6
           + 26959946667150639794667015087019630673637144422540572481103610249216 * m7
           + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * m8
           + 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 * m9
           + 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 * m10
           + 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 * m11
           + 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 * m12
           = L - N * LHigh

\* 385 bits into 258
Fold2Right ==
  LET s0  == l0 + 801750719 * l8
      s1  == l1 + 801750719 * l9 + 1076732275 * l8 + Hi(s0)
      s2  == l2 + 801750719 * l10 + 1076732275 * l9 + 1354194884 * l8 + Hi(s1)
      s3  == l3 + 801750719 * l11 + 1076732275 * l10 + 1354194884 * l9 + 1162945305 * l8 + Hi(s2)
      s4  == l4 + 801750719 * l12 + 1076732275 * l11 + 1354194884 * l10 + 1162945305 * l9 + l8 + Hi(s3)
      s5  == l5 + 801750719 * l13 + 1076732275 * l12 + 1354194884 * l11 + 1162945305 * l10 + l9 + Hi(s4)
      s6  == l6 + 801750719 * l14 + 1076732275 * l13 + 1354194884 * l12 + 1162945305 * l11 + l10 + Hi(s5)
      s7  == l7 + 801750719 * l15 + 1076732275 * l14 + 1354194884 * l13 + 1162945305 * l12 + l11 + Hi(s6)
      s8  == 1076732275 * l15 + 1354194884 * l14 + 1162945305 * l13 + l12 + Hi(s7)
      s9  == 1354194884 * l15 + 1162945305 * l14 + l13 + Hi(s8)
      s10 == 1162945305 * l15 + l14 + Hi(s9)
      s11 == l15 + Hi(s10)
      m0  == Lo(s0)
      m1  == Lo(s1)
      m2  == Lo(s2)
      m3  == Lo(s3)
      m4  == Lo(s4)
      m5  == Lo(s5)
      m6  == Lo(s6)
      m7  == Lo(s7)
      m8  == Lo(s8)
      m9  == Lo(s9)
      m10 == Lo(s10)
      m11 == Lo(s11)
      m12 == Hi(s11)
      q0  == m0 + 801750719 * m8
      q1  == m1 + 801750719 * m9 + 1076732275 * m8 + Hi(q0)
      q2  == m2 + 801750719 * m10 + 1076732275 * m9 + 1354194884 * m8 + Hi(q1)
      q3  == m3 + 801750719 * m11 + 1076732275 * m10 + 1354194884 * m9 + 1162945305 * m8 + Hi(q2)
      q4  == m4 + 801750719 * m12 + 1076732275 * m11 + 1354194884 * m10 + 1162945305 * m9 + m8 + Hi(q3)
      q5  == m5 + 1076732275 * m12 + 1354194884 * m11 + 1162945305 * m10 + m9 + Hi(q4)
      q6  == m6 + 1354194884 * m12 + 1162945305 * m11 + m10 + Hi(q5)
      q7  == m7 + 1162945305 * m12 + m11 + Hi(q6)
      r0  == Lo(q0)
      r1  == Lo(q1)
      r2  == Lo(q2)
      r3  == Lo(q3)
      r4  == Lo(q4)
      r5  == Lo(q5)
      r6  == Lo(q6)
      r7  == Lo(q7)
      r8  == Hi(q7) + m12
  IN  /\ r8 <= 2 /\ q0 < 18446744073709551616 /\ q7 < 18446744073709551616
      /\ r0
           + 4294967296 * r1
           + 18446744073709551616 * r2
           + 79228162514264337593543950336 * r3
           + 340282366920938463463374607431768211456 * r4
           + 1461501637330902918203684832716283019655932542976 * r5
           + 6277101735386680763835789423207666416102355444464034512896 * r6
           + 26959946667150639794667015087019630673637144422540572481103610249216 * r7
           + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * r8
           = m0
           + 4294967296 * m1
           + 18446744073709551616 * m2
           + 79228162514264337593543950336 * m3
           + 340282366920938463463374607431768211456 * m4
           + 1461501637330902918203684832716283019655932542976 * m5
           + 6277101735386680763835789423207666416102355444464034512896 * m6
           + 26959946667150639794667015087019630673637144422540572481103610249216 * m7
           + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * m8
           + 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 * m9
           + 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 * m10
           + 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 * m11
           + 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 * m12
           - N * (1 * m8
           + 4294967296 * m9
           + 18446744073709551616 * m10
           + 79228162514264337593543950336 * m11
           + 340282366920938463463374607431768211456 * m12)

Fold3Max == 115792089237316195423570985008687907854134825438771883353162425740703065931133

\* 258 bits into 256 and a carry
Fold3Right ==
  LET s0    == l0 + 801750719 * l8
      s1    == l1 + 801750719 * l9 + 1076732275 * l8 + Hi(s0)
      s2    == l2 + 801750719 * l10 + 1076732275 * l9 + 1354194884 * l8 + Hi(s1)
      s3    == l3 + 801750719 * l11 + 1076732275 * l10 + 1354194884 * l9 + 1162945305 * l8 + Hi(s2)
      s4    == l4 + 801750719 * l12 + 1076732275 * l11 + 1354194884 * l10 + 1162945305 * l9 + l8 + Hi(s3)
      s5    == l5 + 801750719 * l13 + 1076732275 * l12 + 1354194884 * l11 + 1162945305 * l10 + l9 + Hi(s4)
      s6    == l6 + 801750719 * l14 + 1076732275 * l13 + 1354194884 * l12 + 1162945305 * l11 + l10 + Hi(s5)
      s7    == l7 + 801750719 * l15 + 1076732275 * l14 + 1354194884 * l13 + 1162945305 * l12 + l11 + Hi(s6)
      s8    == 1076732275 * l15 + 1354194884 * l14 + 1162945305 * l13 + l12 + Hi(s7)
      s9    == 1354194884 * l15 + 1162945305 * l14 + l13 + Hi(s8)
      s10   == 1162945305 * l15 + l14 + Hi(s9)
      s11   == l15 + Hi(s10)
      m0    == Lo(s0)
      m1    == Lo(s1)
      m2    == Lo(s2)
      m3    == Lo(s3)
      m4    == Lo(s4)
      m5    == Lo(s5)
      m6    == Lo(s6)
      m7    == Lo(s7)
      m8    == Lo(s8)
      m9    == Lo(s9)
      m10   == Lo(s10)
      m11   == Lo(s11)
      m12   == Hi(s11)
      q0    == m0 + 801750719 * m8
      q1    == m1 + 801750719 * m9 + 1076732275 * m8 + Hi(q0)
      q2    == m2 + 801750719 * m10 + 1076732275 * m9 + 1354194884 * m8 + Hi(q1)
      q3    == m3 + 801750719 * m11 + 1076732275 * m10 + 1354194884 * m9 + 1162945305 * m8 + Hi(q2)
      q4    == m4 + 801750719 * m12 + 1076732275 * m11 + 1354194884 * m10 + 1162945305 * m9 + m8 + Hi(q3)
      q5    == m5 + 1076732275 * m12 + 1354194884 * m11 + 1162945305 * m10 + m9 + Hi(q4)
      q6    == m6 + 1354194884 * m12 + 1162945305 * m11 + m10 + Hi(q5)
      q7    == m7 + 1162945305 * m12 + m11 + Hi(q6)
      r0    == Lo(q0)
      r1    == Lo(q1)
      r2    == Lo(q2)
      r3    == Lo(q3)
      r4    == Lo(q4)
      r5    == Lo(q5)
      r6    == Lo(q6)
      r7    == Lo(q7)
      r8    == Hi(q7) + m12
      e0    == r0 + 801750719 * r8
      e1    == r1 + 1076732275 * r8 + Hi(e0)
      e2    == r2 + 1354194884 * r8 + Hi(e1)
      e3    == r3 + 1162945305 * r8 + Hi(e2)
      e4    == r4 + r8 + Hi(e3)
      e5    == r5 + Hi(e4)
      e6    == r6 + Hi(e5)
      e7    == r7 + Hi(e6)
      x0    == Lo(e0)
      x1    == Lo(e1)
      x2    == Lo(e2)
      x3    == Lo(e3)
      x4    == Lo(e4)
      x5    == Lo(e5)
      x6    == Lo(e6)
      x7    == Lo(e7)
      carry == Hi(e7)
  IN  /\ carry <= 1 /\ Val(x0, x1, x2, x3, x4, x5, x6, x7) + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * carry <= Fold3Max
      /\ Val(x0, x1, x2, x3, x4, x5, x6, x7) + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * carry
           = r0
           + 4294967296 * r1
           + 18446744073709551616 * r2
           + 79228162514264337593543950336 * r3
           + 340282366920938463463374607431768211456 * r4
           + 1461501637330902918203684832716283019655932542976 * r5
           + 6277101735386680763835789423207666416102355444464034512896 * r6
           + 26959946667150639794667015087019630673637144422540572481103610249216 * r7
           + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * r8
           - N * r8

\* the last subtraction of N, for a carry (here c0) or eight words (here l0..l7) of N or more, never both
X == Val(l0, l1, l2, l3, l4, l5, l6, l7)
Fold4Right ==
  c0 <= 1 /\ X + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * c0 <= Fold3Max =>
  LET o  == c0 + One(Over(l0, l1, l2, l3, l4, l5, l6, l7))
      u0 == l0 + 801750719 * o
      u1 == l1 + 1076732275 * o + Hi(u0)
      u2 == l2 + 1354194884 * o + Hi(u1)
      u3 == l3 + 1162945305 * o + Hi(u2)
      u4 == l4 + o + Hi(u3)
      u5 == l5 + Hi(u4)
      u6 == l6 + Hi(u5)
      u7 == l7 + Hi(u6)
  IN  /\ o <= 1
      /\ Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) < N
      /\ Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) = X + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * c0 - N * o

\* a carry forgotten, and a wrong word of NC, must show
BadForgetsCarry ==
  c0 <= 1 /\ X + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * c0 <= Fold3Max =>
  LET o  == One(Over(l0, l1, l2, l3, l4, l5, l6, l7))
      u0 == l0 + 801750719 * o
      u1 == l1 + 1076732275 * o + Hi(u0)
      u2 == l2 + 1354194884 * o + Hi(u1)
      u3 == l3 + 1162945305 * o + Hi(u2)
      u4 == l4 + o + Hi(u3)
      u5 == l5 + Hi(u4)
      u6 == l6 + Hi(u5)
      u7 == l7 + Hi(u6)
  IN  /\ o <= 1
      /\ Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) < N
      /\ Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) = X + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * c0 - N * o
BadFold1 ==
  LET s0  == l0 + 801750718 * l8
      s1  == l1 + 801750718 * l9 + 1076732275 * l8 + Hi(s0)
      s2  == l2 + 801750718 * l10 + 1076732275 * l9 + 1354194884 * l8 + Hi(s1)
      s3  == l3 + 801750718 * l11 + 1076732275 * l10 + 1354194884 * l9 + 1162945305 * l8 + Hi(s2)
      s4  == l4 + 801750718 * l12 + 1076732275 * l11 + 1354194884 * l10 + 1162945305 * l9 + l8 + Hi(s3)
      s5  == l5 + 801750718 * l13 + 1076732275 * l12 + 1354194884 * l11 + 1162945305 * l10 + l9 + Hi(s4)
      s6  == l6 + 801750718 * l14 + 1076732275 * l13 + 1354194884 * l12 + 1162945305 * l11 + l10 + Hi(s5)
      s7  == l7 + 801750718 * l15 + 1076732275 * l14 + 1354194884 * l13 + 1162945305 * l12 + l11 + Hi(s6)
      s8  == 1076732275 * l15 + 1354194884 * l14 + 1162945305 * l13 + l12 + Hi(s7)
      s9  == 1354194884 * l15 + 1162945305 * l14 + l13 + Hi(s8)
      s10 == 1162945305 * l15 + l14 + Hi(s9)
      s11 == l15 + Hi(s10)
      m0  == Lo(s0)
      m1  == Lo(s1)
      m2  == Lo(s2)
      m3  == Lo(s3)
      m4  == Lo(s4)
      m5  == Lo(s5)
      m6  == Lo(s6)
      m7  == Lo(s7)
      m8  == Lo(s8)
      m9  == Lo(s9)
      m10 == Lo(s10)
      m11 == Lo(s11)
      m12 == Hi(s11)
  IN  m0
           + 4294967296 * m1
           + 18446744073709551616 * m2
           + 79228162514264337593543950336 * m3
           + 340282366920938463463374607431768211456 * m4
           + 1461501637330902918203684832716283019655932542976 * m5
           + 6277101735386680763835789423207666416102355444464034512896 * m6
           + 26959946667150639794667015087019630673637144422540572481103610249216 * m7
           + 115792089237316195423570985008687907853269984665640564039457584007913129639936 * m8
           + 497323236409786642155382248146820840100456150797347717440463976893159497012533375533056 * m9
           + 2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936576 * m10
           + 9173994463960286046443283581208347763186259956673124494950355357547691504353939232280074212440502746218496 * m11
           + 39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816 * m12 = L - N * LHigh
=============================================================================
