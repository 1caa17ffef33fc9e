----------------------------- MODULE WordField -----------------------------
(* Field elements limb by limb at full size, decided by Apalache for all
   values.  An element is ten limbs of 26 bits (the top one of 22) that may
   run over: with magnitude m each limb may be up to 2 m times its full width.
   n and o are two such elements, of magnitudes m and k; every result is held
   against the number the limbs stand for, and every intermediate word against
   the width of the machine word it is kept in.  w0..w7 are the words of
   storage, d0..d18 column sums of a product.  The invariants called Bad..
   carry one of the classic slips and must be refuted. *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  n0,
  \* @type: Int;
  n1,
  \* @type: Int;
  n2,
  \* @type: Int;
  n3,
  \* @type: Int;
  n4,
  \* @type: Int;
  n5,
  \* @type: Int;
  n6,
  \* @type: Int;
  n7,
  \* @type: Int;
  n8,
  \* @type: Int;
  n9,
  \* @type: Int;
  o0,
  \* @type: Int;
  o1,
  \* @type: Int;
  o2,
  \* @type: Int;
  o3,
  \* @type: Int;
  o4,
  \* @type: Int;
  o5,
  \* @type: Int;
  o6,
  \* @type: Int;
  o7,
  \* @type: Int;
  o8,
  \* @type: Int;
  o9,
  \* @type: Int;
  m,
  \* @type: Int;
  k,
  \* @type: Int;
  w0,
  \* @type: Int;
  w1,
  \* @type: Int;
  w2,
  \* @type: Int;
  w3,
  \* @type: Int;
  w4,
  \* @type: Int;
  w5,
  \* @type: Int;
  w6,
  \* @type: Int;
  w7,
  \* @type: Int;
  d0,
  \* @type: Int;
  d1,
  \* @type: Int;
  d2,
  \* @type: Int;
  d3,
  \* @type: Int;
  d4,
  \* @type: Int;
  d5,
  \* @type: Int;
  d6,
  \* @type: Int;
  d7,
  \* @type: Int;
  d8,
  \* @type: Int;
  d9,
  \* @type: Int;
  d10,
  \* @type: Int;
  d11,
  \* @type: Int;
  d12,
  \* @type: Int;
  d13,
  \* @type: Int;
  d14,
  \* @type: Int;
  d15,
  \* @type: Int;
  d16,
  \* @type: Int;
  d17,
  \* @type: Int;
  d18

K == 67108864            \* 2^26
Full == 67108863
Top == 4194303           \* the widest normal top limb
P0 == 67107887           \* the two low limbs of P; the others are Full, and Top
P1 == 67108799
U32 == 4294967296
U64 == 18446744073709551616
P == 115792089237316195423570985008687907853269984665640564039457584007908834671663
One(c) == IF c THEN 1 ELSE 0
Bit(x) == x \div K
Low(x) == x % K

Val(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9) ==
  x0 + K * x1
  + 4503599627370496 * x2
  + 302231454903657293676544 * x3
  + 20282409603651670423947251286016 * x4
  + 1361129467683753853853498429727072845824 * x5
  + 91343852333181432387730302044767688728495783936 * x6
  + 6129982163463555433433388108601236734474956488734408704 * x7
  + 411376139330301510538742295639337626245683966408394965837152256 * x8
  + 27606985387162255149739023449108101809804435888681546220650096895197184 * x9
Words(x0, x1, x2, x3, x4, x5, x6, x7) ==
  x0 + U32 * x1
  + 18446744073709551616 * x2
  + 79228162514264337593543950336 * x3
  + 340282366920938463463374607431768211456 * x4
  + 1461501637330902918203684832716283019655932542976 * x5
  + 6277101735386680763835789423207666416102355444464034512896 * x6
  + 26959946667150639794667015087019630673637144422540572481103610249216 * x7
V == Val(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9)
O == Val(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)

(* What is kept of a limb: verify() wants 2 * mag times its full width; for
   magnitudes up to 32 that alone would let the two low limbs run over 32 bits
   in normalize (WeakRight is refuted from InitLoose), so what the operations keep is the
   stronger: the two low limbs stay within 2 * mag times those of P. *)
Fits(x, w, mag) == 0 <= x /\ x <= 2 * w * mag

Init ==
  /\ m \in Int /\ 0 <= m /\ m <= 32
  /\ k \in Int /\ 0 <= k /\ k <= 32
  /\ n0 \in Int /\ Fits(n0, P0, m)
  /\ n1 \in Int /\ Fits(n1, P1, m)
  /\ n2 \in Int /\ Fits(n2, Full, m)
  /\ n3 \in Int /\ Fits(n3, Full, m)
  /\ n4 \in Int /\ Fits(n4, Full, m)
  /\ n5 \in Int /\ Fits(n5, Full, m)
  /\ n6 \in Int /\ Fits(n6, Full, m)
  /\ n7 \in Int /\ Fits(n7, Full, m)
  /\ n8 \in Int /\ Fits(n8, Full, m)
  /\ n9 \in Int /\ Fits(n9, Top, m)
  /\ o0 \in Int /\ Fits(o0, P0, k)
  /\ o1 \in Int /\ Fits(o1, P1, k)
  /\ o2 \in Int /\ Fits(o2, Full, k)
  /\ o3 \in Int /\ Fits(o3, Full, k)
  /\ o4 \in Int /\ Fits(o4, Full, k)
  /\ o5 \in Int /\ Fits(o5, Full, k)
  /\ o6 \in Int /\ Fits(o6, Full, k)
  /\ o7 \in Int /\ Fits(o7, Full, k)
  /\ o8 \in Int /\ Fits(o8, Full, k)
  /\ o9 \in Int /\ Fits(o9, Top, k)
  /\ w0 \in Int /\ 0 <= w0 /\ w0 < U32
  /\ w1 \in Int /\ 0 <= w1 /\ w1 < U32
  /\ w2 \in Int /\ 0 <= w2 /\ w2 < U32
  /\ w3 \in Int /\ 0 <= w3 /\ w3 < U32
  /\ w4 \in Int /\ 0 <= w4 /\ w4 < U32
  /\ w5 \in Int /\ 0 <= w5 /\ w5 < U32
  /\ w6 \in Int /\ 0 <= w6 /\ w6 < U32
  /\ w7 \in Int /\ 0 <= w7 /\ w7 < U32
  \* column sums of two elements of magnitude 8, the largest that may be multiplied
  /\ d0 \in Int /\ 0 <= d0 /\ d0 <= 1152921470247108864
  /\ d1 \in Int /\ 0 <= d1 /\ d1 <= 2305842940494217728
  /\ d2 \in Int /\ 0 <= d2 /\ d2 <= 3458764410741326592
  /\ d3 \in Int /\ 0 <= d3 /\ d3 <= 4611685880988435456
  /\ d4 \in Int /\ 0 <= d4 /\ d4 <= 5764607351235544320
  /\ d5 \in Int /\ 0 <= d5 /\ d5 <= 6917528821482653184
  /\ d6 \in Int /\ 0 <= d6 /\ d6 <= 8070450291729762048
  /\ d7 \in Int /\ 0 <= d7 /\ d7 <= 9223371761976870912
  /\ d8 \in Int /\ 0 <= d8 /\ d8 <= 10376293232223979776
  /\ d9 \in Int /\ 0 <= d9 /\ d9 <= 9367486913545505280
  /\ d10 \in Int /\ 0 <= d10 /\ d10 <= 8214565443298396416
  /\ d11 \in Int /\ 0 <= d11 /\ d11 <= 7061643973051287552
  /\ d12 \in Int /\ 0 <= d12 /\ d12 <= 5908722502804178688
  /\ d13 \in Int /\ 0 <= d13 /\ d13 <= 4755801032557069824
  /\ d14 \in Int /\ 0 <= d14 /\ d14 <= 3602879562309960960
  /\ d15 \in Int /\ 0 <= d15 /\ d15 <= 2449958092062852096
  /\ d16 \in Int /\ 0 <= d16 /\ d16 <= 1297036621815743232
  /\ d17 \in Int /\ 0 <= d17 /\ d17 <= 144115151568634368
  /\ d18 \in Int /\ 0 <= d18 /\ d18 <= 4503597479887104

\* limbs that come from elsewhere (new_raw) are only held to verify(): this will do up to magnitude 31, not for 32
InitRaw ==
  /\ m \in Int /\ 0 <= m /\ m <= 31 /\ k = 1
  /\ n0 \in Int /\ Fits(n0, Full, m)
  /\ n1 \in Int /\ Fits(n1, Full, m)
  /\ n2 \in Int /\ Fits(n2, Full, m)
  /\ n3 \in Int /\ Fits(n3, Full, m)
  /\ n4 \in Int /\ Fits(n4, Full, m)
  /\ n5 \in Int /\ Fits(n5, Full, m)
  /\ n6 \in Int /\ Fits(n6, Full, m)
  /\ n7 \in Int /\ Fits(n7, Full, m)
  /\ n8 \in Int /\ Fits(n8, Full, m)
  /\ n9 \in Int /\ Fits(n9, Top, m)
  /\ o0 = 0 /\ o1 = 0 /\ o2 = 0 /\ o3 = 0 /\ o4 = 0 /\ o5 = 0 /\ o6 = 0 /\ o7 = 0 /\ o8 = 0 /\ o9 = 0 /\ w0 = 0 /\ w1 = 0 /\ w2 = 0 /\ w3 = 0 /\ w4 = 0 /\ w5 = 0 /\ w6 = 0 /\ w7 = 0 /\ d0 = 0 /\ d1 = 0 /\ d2 = 0 /\ d3 = 0 /\ d4 = 0 /\ d5 = 0 /\ d6 = 0 /\ d7 = 0 /\ d8 = 0 /\ d9 = 0 /\ d10 = 0 /\ d11 = 0 /\ d12 = 0 /\ d13 = 0 /\ d14 = 0 /\ d15 = 0 /\ d16 = 0 /\ d17 = 0 /\ d18 = 0

InitLoose ==
  /\ m \in Int /\ 0 <= m /\ m <= 32 /\ k = 1
  /\ n0 \in Int /\ Fits(n0, Full, m)
  /\ n1 \in Int /\ Fits(n1, Full, m)
  /\ n2 \in Int /\ Fits(n2, Full, m)
  /\ n3 \in Int /\ Fits(n3, Full, m)
  /\ n4 \in Int /\ Fits(n4, Full, m)
  /\ n5 \in Int /\ Fits(n5, Full, m)
  /\ n6 \in Int /\ Fits(n6, Full, m)
  /\ n7 \in Int /\ Fits(n7, Full, m)
  /\ n8 \in Int /\ Fits(n8, Full, m)
  /\ n9 \in Int /\ Fits(n9, Top, m)
  /\ o0 = 0 /\ o1 = 0 /\ o2 = 0 /\ o3 = 0 /\ o4 = 0 /\ o5 = 0 /\ o6 = 0 /\ o7 = 0 /\ o8 = 0 /\ o9 = 0 /\ w0 = 0 /\ w1 = 0 /\ w2 = 0 /\ w3 = 0 /\ w4 = 0 /\ w5 = 0 /\ w6 = 0 /\ w7 = 0 /\ d0 = 0 /\ d1 = 0 /\ d2 = 0 /\ d3 = 0 /\ d4 = 0 /\ d5 = 0 /\ d6 = 0 /\ d7 = 0 /\ d8 = 0 /\ d9 = 0 /\ d10 = 0 /\ d11 = 0 /\ d12 = 0 /\ d13 = 0 /\ d14 = 0 /\ d15 = 0 /\ d16 = 0 /\ d17 = 0 /\ d18 = 0

Next == UNCHANGED <<n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, m, k, w0, w1, w2, w3, w4, w5, w6, w7, d0, d1, d2, d3, d4, d5, d6, d7, d8, d9, d10, d11, d12, d13, d14, d15, d16, d17, d18>>

\* normalize_weak: what is above 2^256 comes back as 2^32 + 977; the value moves by a multiple of P
WeakRight ==
  LET x  == n9 \div 4194304
      t0 == n0 + 977 * x
      t1 == n1 + 64 * x + Bit(t0)
      t2 == n2 + Bit(t1)
      t3 == n3 + Bit(t2)
      t4 == n4 + Bit(t3)
      t5 == n5 + Bit(t4)
      t6 == n6 + Bit(t5)
      t7 == n7 + Bit(t6)
      t8 == n8 + Bit(t7)
      t9 == (n9 % 4194304) + Bit(t8)
      y0 == Low(t0)
      y1 == Low(t1)
      y2 == Low(t2)
      y3 == Low(t3)
      y4 == Low(t4)
      y5 == Low(t5)
      y6 == Low(t6)
      y7 == Low(t7)
      y8 == Low(t8)
      y9 == t9
  IN  /\ t0 < U32 /\ t1 < U32 /\ t2 < U32 /\ t3 < U32 /\ t4 < U32
      /\ t5 < U32 /\ t6 < U32 /\ t7 < U32 /\ t8 < U32 /\ t9 < U32
      /\ Fits(y0, P0, 1) /\ Fits(y1, P1, 1) /\ y9 <= 2 * Top /\ Val(y0, y1, y2, y3, y4, y5, y6, y7, y8, y9) < 2 * P
      /\ Val(y0, y1, y2, y3, y4, y5, y6, y7, y8, y9) = V - P * x

\* normalize and normalize_var: a second pass for a value of P or more (t9 has 23 bits; the wide limbs are all ones)
NormalRight ==
  LET x   == n9 \div 4194304
      t0  == n0 + 977 * x
      t1  == n1 + 64 * x + Bit(t0)
      t2  == n2 + Bit(t1)
      t3  == n3 + Bit(t2)
      t4  == n4 + Bit(t3)
      t5  == n5 + Bit(t4)
      t6  == n6 + Bit(t5)
      t7  == n7 + Bit(t6)
      t8  == n8 + Bit(t7)
      t9  == (n9 % 4194304) + Bit(t8)
      y0  == Low(t0)
      y1  == Low(t1)
      y2  == Low(t2)
      y3  == Low(t3)
      y4  == Low(t4)
      y5  == Low(t5)
      y6  == Low(t6)
      y7  == Low(t7)
      y8  == Low(t8)
      y9  == t9
      mid == y2 = Full /\ y3 = Full /\ y4 = Full /\ y5 = Full /\ y6 = Full /\ y7 = Full /\ y8 = Full
      x2  == IF y9 \div 4194304 > 0 \/ (y9 = Top /\ mid /\ y1 + 64 + Bit(y0 + 977) > Full) THEN 1 ELSE 0
      z0  == y0 + 977 * x2
      z1  == y1 + 64 * x2 + Bit(z0)
      z2  == y2 + Bit(z1)
      z3  == y3 + Bit(z2)
      z4  == y4 + Bit(z3)
      z5  == y5 + Bit(z4)
      z6  == y6 + Bit(z5)
      z7  == y7 + Bit(z6)
      z8  == y8 + Bit(z7)
      z9  == y9 + Bit(z8)
  IN  /\ x2 <= 1 /\ y9 \div 8388608 = 0 /\ z9 \div 4194304 = x2
      /\ Val(Low(z0), Low(z1), Low(z2), Low(z3), Low(z4), Low(z5), Low(z6), Low(z7), Low(z8), (z9 % 4194304)) < P
      /\ Val(Low(z0), Low(z1), Low(z2), Low(z3), Low(z4), Low(z5), Low(z6), Low(z7), Low(z8), (z9 % 4194304)) = V - P * (x + x2)

BadNormalForgetsP ==
  LET x   == n9 \div 4194304
      t0  == n0 + 977 * x
      t1  == n1 + 64 * x + Bit(t0)
      t2  == n2 + Bit(t1)
      t3  == n3 + Bit(t2)
      t4  == n4 + Bit(t3)
      t5  == n5 + Bit(t4)
      t6  == n6 + Bit(t5)
      t7  == n7 + Bit(t6)
      t8  == n8 + Bit(t7)
      t9  == (n9 % 4194304) + Bit(t8)
      y0  == Low(t0)
      y1  == Low(t1)
      y2  == Low(t2)
      y3  == Low(t3)
      y4  == Low(t4)
      y5  == Low(t5)
      y6  == Low(t6)
      y7  == Low(t7)
      y8  == Low(t8)
      y9  == t9
      mid == y2 = Full /\ y3 = Full /\ y4 = Full /\ y5 = Full /\ y6 = Full /\ y7 = Full /\ y8 = Full
      x2  == IF y9 \div 4194304 > 0 THEN 1 ELSE 0
      z0  == y0 + 977 * x2
      z1  == y1 + 64 * x2 + Bit(z0)
      z2  == y2 + Bit(z1)
      z3  == y3 + Bit(z2)
      z4  == y4 + Bit(z3)
      z5  == y5 + Bit(z4)
      z6  == y6 + Bit(z5)
      z7  == y7 + Bit(z6)
      z8  == y8 + Bit(z7)
      z9  == y9 + Bit(z8)
  IN  /\ x2 <= 1 /\ y9 \div 8388608 = 0 /\ z9 \div 4194304 = x2
      /\ Val(Low(z0), Low(z1), Low(z2), Low(z3), Low(z4), Low(z5), Low(z6), Low(z7), Low(z8), (z9 % 4194304)) < P
      /\ Val(Low(z0), Low(z1), Low(z2), Low(z3), Low(z4), Low(z5), Low(z6), Low(z7), Low(z8), (z9 % 4194304)) = V - P * (x + x2)

BadNormalOneOff ==
  LET x   == n9 \div 4194304
      t0  == n0 + 977 * x
      t1  == n1 + 64 * x + Bit(t0)
      t2  == n2 + Bit(t1)
      t3  == n3 + Bit(t2)
      t4  == n4 + Bit(t3)
      t5  == n5 + Bit(t4)
      t6  == n6 + Bit(t5)
      t7  == n7 + Bit(t6)
      t8  == n8 + Bit(t7)
      t9  == (n9 % 4194304) + Bit(t8)
      y0  == Low(t0)
      y1  == Low(t1)
      y2  == Low(t2)
      y3  == Low(t3)
      y4  == Low(t4)
      y5  == Low(t5)
      y6  == Low(t6)
      y7  == Low(t7)
      y8  == Low(t8)
      y9  == t9
      mid == y2 = Full /\ y3 = Full /\ y4 = Full /\ y5 = Full /\ y6 = Full /\ y7 = Full /\ y8 = Full
      x2  == IF y9 \div 4194304 > 0 \/ (y9 = Top /\ mid /\ y1 + 64 + Bit(y0 + 976) > Full) THEN 1 ELSE 0
      z0  == y0 + 977 * x2
      z1  == y1 + 64 * x2 + Bit(z0)
      z2  == y2 + Bit(z1)
      z3  == y3 + Bit(z2)
      z4  == y4 + Bit(z3)
      z5  == y5 + Bit(z4)
      z6  == y6 + Bit(z5)
      z7  == y7 + Bit(z6)
      z8  == y8 + Bit(z7)
      z9  == y9 + Bit(z8)
  IN  /\ x2 <= 1 /\ y9 \div 8388608 = 0 /\ z9 \div 4194304 = x2
      /\ Val(Low(z0), Low(z1), Low(z2), Low(z3), Low(z4), Low(z5), Low(z6), Low(z7), Low(z8), (z9 % 4194304)) < P
      /\ Val(Low(z0), Low(z1), Low(z2), Low(z3), Low(z4), Low(z5), Low(z6), Low(z7), Low(z8), (z9 % 4194304)) = V - P * (x + x2)

\* normalizes_to_zero and normalizes_to_zero_var: all zero or the limbs of P, after one pass (WeakRight says that it leaves less than 2 * P)
ZeroTestRight ==
  LET x    == n9 \div 4194304
      t0   == n0 + 977 * x
      t1   == n1 + 64 * x + Bit(t0)
      t2   == n2 + Bit(t1)
      t3   == n3 + Bit(t2)
      t4   == n4 + Bit(t3)
      t5   == n5 + Bit(t4)
      t6   == n6 + Bit(t5)
      t7   == n7 + Bit(t6)
      t8   == n8 + Bit(t7)
      t9   == (n9 % 4194304) + Bit(t8)
      y0   == Low(t0)
      y1   == Low(t1)
      y2   == Low(t2)
      y3   == Low(t3)
      y4   == Low(t4)
      y5   == Low(t5)
      y6   == Low(t6)
      y7   == Low(t7)
      y8   == Low(t8)
      y9   == t9
      zero == ((y0 = 0 /\ y1 = 0 /\ y2 = 0 /\ y3 = 0 /\ y4 = 0 /\ y5 = 0 /\ y6 = 0 /\ y7 = 0 /\ y8 = 0 /\ y9 = 0) \/ (y0 = 67107887 /\ y1 = 67108799 /\ y2 = Full /\ y3 = Full /\ y4 = Full /\ y5 = Full /\ y6 = Full /\ y7 = Full /\ y8 = Full /\ y9 = Top))
  IN  zero <=> Val(y0, y1, y2, y3, y4, y5, y6, y7, y8, y9) = 0 \/ Val(y0, y1, y2, y3, y4, y5, y6, y7, y8, y9) = P

BadZeroTest ==
  LET x    == n9 \div 4194304
      t0   == n0 + 977 * x
      t1   == n1 + 64 * x + Bit(t0)
      t2   == n2 + Bit(t1)
      t3   == n3 + Bit(t2)
      t4   == n4 + Bit(t3)
      t5   == n5 + Bit(t4)
      t6   == n6 + Bit(t5)
      t7   == n7 + Bit(t6)
      t8   == n8 + Bit(t7)
      t9   == (n9 % 4194304) + Bit(t8)
      y0   == Low(t0)
      y1   == Low(t1)
      y2   == Low(t2)
      y3   == Low(t3)
      y4   == Low(t4)
      y5   == Low(t5)
      y6   == Low(t6)
      y7   == Low(t7)
      y8   == Low(t8)
      y9   == t9
      zero == (y0 = 0 /\ y1 = 0 /\ y2 = 0 /\ y3 = 0 /\ y4 = 0 /\ y5 = 0 /\ y6 = 0 /\ y7 = 0 /\ y8 = 0 /\ y9 = 0)
  IN  zero <=> Val(y0, y1, y2, y3, y4, y5, y6, y7, y8, y9) = 0 \/ Val(y0, y1, y2, y3, y4, y5, y6, y7, y8, y9) = P

\* the test for a value of P or more in set_b32 and verify(): limbs within their widths, not a number below P
RangeRight ==
  (n0 <= Full /\ n1 <= Full /\ n2 <= Full /\ n3 <= Full /\ n4 <= Full /\ n5 <= Full /\ n6 <= Full /\ n7 <= Full /\ n8 <= Full /\ n9 <= Top) =>
    ((n9 = Top /\ n2 = Full /\ n3 = Full /\ n4 = Full /\ n5 = Full /\ n6 = Full /\ n7 = Full /\ n8 = Full /\ n1 + 64 + Bit(n0 + 977) > Full) <=> V >= P)

\* neg_in_place: never below zero in any limb, and the negative modulo P
NegRight ==
  m <= 31 =>
  LET z0 == 67107887 * 2 * (m + 1) - n0
      z1 == 67108799 * 2 * (m + 1) - n1
      z2 == Full * 2 * (m + 1) - n2
      z3 == Full * 2 * (m + 1) - n3
      z4 == Full * 2 * (m + 1) - n4
      z5 == Full * 2 * (m + 1) - n5
      z6 == Full * 2 * (m + 1) - n6
      z7 == Full * 2 * (m + 1) - n7
      z8 == Full * 2 * (m + 1) - n8
      z9 == Top * 2 * (m + 1) - n9
  IN  /\ Fits(z0, P0, m + 1) /\ z0 < U32 /\ Fits(z1, P1, m + 1) /\ z1 < U32 /\ Fits(z2, Full, m + 1) /\ z2 < U32 /\ Fits(z3, Full, m + 1) /\ z3 < U32 /\ Fits(z4, Full, m + 1) /\ z4 < U32
      /\ Fits(z5, Full, m + 1) /\ z5 < U32 /\ Fits(z6, Full, m + 1) /\ z6 < U32 /\ Fits(z7, Full, m + 1) /\ z7 < U32 /\ Fits(z8, Full, m + 1) /\ z8 < U32
      /\ Fits(z9, Top, m + 1)
      /\ Val(z0, z1, z2, z3, z4, z5, z6, z7, z8, z9) = 2 * (m + 1) * P - V

BadNeg ==
  m <= 31 =>
  LET z0 == 67107888 * 2 * (m + 1) - n0
      z1 == 67108799 * 2 * (m + 1) - n1
      z2 == Full * 2 * (m + 1) - n2
      z3 == Full * 2 * (m + 1) - n3
      z4 == Full * 2 * (m + 1) - n4
      z5 == Full * 2 * (m + 1) - n5
      z6 == Full * 2 * (m + 1) - n6
      z7 == Full * 2 * (m + 1) - n7
      z8 == Full * 2 * (m + 1) - n8
      z9 == Top * 2 * (m + 1) - n9
  IN  /\ Fits(z0, P0, m + 1) /\ z0 < U32 /\ Fits(z1, P1, m + 1) /\ z1 < U32 /\ Fits(z2, Full, m + 1) /\ z2 < U32 /\ Fits(z3, Full, m + 1) /\ z3 < U32 /\ Fits(z4, Full, m + 1) /\ z4 < U32
      /\ Fits(z5, Full, m + 1) /\ z5 < U32 /\ Fits(z6, Full, m + 1) /\ z6 < U32 /\ Fits(z7, Full, m + 1) /\ z7 < U32 /\ Fits(z8, Full, m + 1) /\ z8 < U32
      /\ Fits(z9, Top, m + 1)
      /\ Val(z0, z1, z2, z3, z4, z5, z6, z7, z8, z9) = 2 * (m + 1) * P - V

\* add_assign
AddRight ==
  m + k <= 32 =>
    /\ n0 + o0 < U32 /\ n1 + o1 < U32 /\ n2 + o2 < U32 /\ n3 + o3 < U32 /\ n4 + o4 < U32 /\ n5 + o5 < U32 /\ n6 + o6 < U32 /\ n7 + o7 < U32 /\ n8 + o8 < U32 /\ n9 + o9 < U32
    /\ Fits(n0 + o0, P0, m + k) /\ Fits(n1 + o1, P1, m + k) /\ Fits(n2 + o2, Full, m + k) /\ Fits(n3 + o3, Full, m + k) /\ Fits(n4 + o4, Full, m + k) /\ Fits(n5 + o5, Full, m + k) /\ Fits(n6 + o6, Full, m + k) /\ Fits(n7 + o7, Full, m + k) /\ Fits(n8 + o8, Full, m + k) /\ Fits(n9 + o9, Top, m + k)
    /\ Val(n0 + o0, n1 + o1, n2 + o2, n3 + o3, n4 + o4, n5 + o5, n6 + o6, n7 + o7, n8 + o8, n9 + o9) = V + O

\* mul_int, by every factor the formulas use and all others that keep the magnitude
MulIntRight ==
  /\ m * 2 <= 32 =>
       /\ n0 * 2 < U32 /\ n1 * 2 < U32 /\ n2 * 2 < U32 /\ n3 * 2 < U32 /\ n4 * 2 < U32 /\ n5 * 2 < U32 /\ n6 * 2 < U32 /\ n7 * 2 < U32 /\ n8 * 2 < U32 /\ n9 * 2 < U32
       /\ Fits(n0 * 2, P0, m * 2) /\ Fits(n1 * 2, P1, m * 2) /\ Fits(n2 * 2, Full, m * 2) /\ Fits(n3 * 2, Full, m * 2) /\ Fits(n4 * 2, Full, m * 2) /\ Fits(n5 * 2, Full, m * 2) /\ Fits(n6 * 2, Full, m * 2) /\ Fits(n7 * 2, Full, m * 2) /\ Fits(n8 * 2, Full, m * 2) /\ Fits(n9 * 2, Top, m * 2)
  /\ m * 3 <= 32 =>
       /\ n0 * 3 < U32 /\ n1 * 3 < U32 /\ n2 * 3 < U32 /\ n3 * 3 < U32 /\ n4 * 3 < U32 /\ n5 * 3 < U32 /\ n6 * 3 < U32 /\ n7 * 3 < U32 /\ n8 * 3 < U32 /\ n9 * 3 < U32
       /\ Fits(n0 * 3, P0, m * 3) /\ Fits(n1 * 3, P1, m * 3) /\ Fits(n2 * 3, Full, m * 3) /\ Fits(n3 * 3, Full, m * 3) /\ Fits(n4 * 3, Full, m * 3) /\ Fits(n5 * 3, Full, m * 3) /\ Fits(n6 * 3, Full, m * 3) /\ Fits(n7 * 3, Full, m * 3) /\ Fits(n8 * 3, Full, m * 3) /\ Fits(n9 * 3, Top, m * 3)
  /\ m * 4 <= 32 =>
       /\ n0 * 4 < U32 /\ n1 * 4 < U32 /\ n2 * 4 < U32 /\ n3 * 4 < U32 /\ n4 * 4 < U32 /\ n5 * 4 < U32 /\ n6 * 4 < U32 /\ n7 * 4 < U32 /\ n8 * 4 < U32 /\ n9 * 4 < U32
       /\ Fits(n0 * 4, P0, m * 4) /\ Fits(n1 * 4, P1, m * 4) /\ Fits(n2 * 4, Full, m * 4) /\ Fits(n3 * 4, Full, m * 4) /\ Fits(n4 * 4, Full, m * 4) /\ Fits(n5 * 4, Full, m * 4) /\ Fits(n6 * 4, Full, m * 4) /\ Fits(n7 * 4, Full, m * 4) /\ Fits(n8 * 4, Full, m * 4) /\ Fits(n9 * 4, Top, m * 4)
  /\ m * 8 <= 32 =>
       /\ n0 * 8 < U32 /\ n1 * 8 < U32 /\ n2 * 8 < U32 /\ n3 * 8 < U32 /\ n4 * 8 < U32 /\ n5 * 8 < U32 /\ n6 * 8 < U32 /\ n7 * 8 < U32 /\ n8 * 8 < U32 /\ n9 * 8 < U32
       /\ Fits(n0 * 8, P0, m * 8) /\ Fits(n1 * 8, P1, m * 8) /\ Fits(n2 * 8, Full, m * 8) /\ Fits(n3 * 8, Full, m * 8) /\ Fits(n4 * 8, Full, m * 8) /\ Fits(n5 * 8, Full, m * 8) /\ Fits(n6 * 8, Full, m * 8) /\ Fits(n7 * 8, Full, m * 8) /\ Fits(n8 * 8, Full, m * 8) /\ Fits(n9 * 8, Top, m * 8)
  /\ m * 16 <= 32 =>
       /\ n0 * 16 < U32 /\ n1 * 16 < U32 /\ n2 * 16 < U32 /\ n3 * 16 < U32 /\ n4 * 16 < U32 /\ n5 * 16 < U32 /\ n6 * 16 < U32 /\ n7 * 16 < U32 /\ n8 * 16 < U32 /\ n9 * 16 < U32
       /\ Fits(n0 * 16, P0, m * 16) /\ Fits(n1 * 16, P1, m * 16) /\ Fits(n2 * 16, Full, m * 16) /\ Fits(n3 * 16, Full, m * 16) /\ Fits(n4 * 16, Full, m * 16) /\ Fits(n5 * 16, Full, m * 16) /\ Fits(n6 * 16, Full, m * 16) /\ Fits(n7 * 16, Full, m * 16) /\ Fits(n8 * 16, Full, m * 16) /\ Fits(n9 * 16, Top, m * 16)
  /\ m * 32 <= 32 =>
       /\ n0 * 32 < U32 /\ n1 * 32 < U32 /\ n2 * 32 < U32 /\ n3 * 32 < U32 /\ n4 * 32 < U32 /\ n5 * 32 < U32 /\ n6 * 32 < U32 /\ n7 * 32 < U32 /\ n8 * 32 < U32 /\ n9 * 32 < U32
       /\ Fits(n0 * 32, P0, m * 32) /\ Fits(n1 * 32, P1, m * 32) /\ Fits(n2 * 32, Full, m * 32) /\ Fits(n3 * 32, Full, m * 32) /\ Fits(n4 * 32, Full, m * 32) /\ Fits(n5 * 32, Full, m * 32) /\ Fits(n6 * 32, Full, m * 32) /\ Fits(n7 * 32, Full, m * 32) /\ Fits(n8 * 32, Full, m * 32) /\ Fits(n9 * 32, Top, m * 32)

\* storage and back; where the code joins parts by or, no bit is in both
UnpackRight ==
  LET z0 == (w0 % K)
      z1 == w0 \div K + ((w1 * 64) % K)
      z2 == w1 \div 1048576 + ((w2 * 4096) % K)
      z3 == w2 \div 16384 + ((w3 * 262144) % K)
      z4 == w3 \div 256 + ((w4 * 16777216) % K)
      z5 == (w4 \div 4) % K
      z6 == w4 \div 268435456 + ((w5 * 16) % K)
      z7 == w5 \div 4194304 + ((w6 * 1024) % K)
      z8 == w6 \div 65536 + ((w7 * 65536) % K)
      z9 == w7 \div 1024
  IN  /\ z0 <= Full /\ z1 <= Full /\ z2 <= Full /\ z3 <= Full /\ z4 <= Full /\ z5 <= Full /\ z6 <= Full /\ z7 <= Full /\ z8 <= Full /\ z9 <= Top
      /\ w0 \div K < 64 /\ w1 \div 1048576 < 4096 /\ w2 \div 16384 < 262144 /\ w3 \div 256 < 16777216 /\ w4 \div 268435456 < 16 /\ w5 \div 4194304 < 1024 /\ w6 \div 65536 < 65536
      /\ Val(z0, z1, z2, z3, z4, z5, z6, z7, z8, z9) = Words(w0, w1, w2, w3, w4, w5, w6, w7)

PackRight ==
  (n0 <= Full /\ n1 <= Full /\ n2 <= Full /\ n3 <= Full /\ n4 <= Full /\ n5 <= Full /\ n6 <= Full /\ n7 <= Full /\ n8 <= Full /\ n9 <= Top) =>
  LET z0 == n0 + ((n1 * K) % U32)
      z1 == n1 \div 64 + ((n2 * 1048576) % U32)
      z2 == n2 \div 4096 + ((n3 * 16384) % U32)
      z3 == n3 \div 262144 + ((n4 * 256) % U32)
      z4 == n4 \div 16777216 + n5 * 4 + ((n6 * 268435456) % U32)
      z5 == n6 \div 16 + ((n7 * 4194304) % U32)
      z6 == n7 \div 1024 + ((n8 * 65536) % U32)
      z7 == n8 \div 65536 + n9 * 1024
  IN  /\ z0 < U32 /\ z1 < U32 /\ z2 < U32 /\ z3 < U32 /\ z4 < U32 /\ z5 < U32 /\ z6 < U32 /\ z7 < U32
      /\ n1 \div 64 < 1048576 /\ n2 \div 4096 < 16384 /\ n3 \div 262144 < 256 /\ n4 \div 16777216 < 4 /\ n5 * 4 < 268435456
      /\ n6 \div 16 < 4194304 /\ n7 \div 1024 < 65536 /\ n8 \div 65536 < 1024
      /\ Words(z0, z1, z2, z3, z4, z5, z6, z7) = V

\* mul_inner and sqr_inner after the products: 2^260 = 16 P + 2^36 + 15632 takes the upper columns down on the way
MulRight ==
  LET t9  == Low(d9)
      e9  == Bit(d9)
      f0  == e9 + d10
      v0  == Low(f0)
      e10 == Bit(f0)
      g0  == d0
      c0  == g0 + 15632 * v0
      h0  == Bit(c0) + 1024 * v0
      f1  == e10 + d11
      v1  == Low(f1)
      e11 == Bit(f1)
      g1  == h0 + d1
      c1  == g1 + 15632 * v1
      h1  == Bit(c1) + 1024 * v1
      f2  == e11 + d12
      v2  == Low(f2)
      e12 == Bit(f2)
      g2  == h1 + d2
      c2  == g2 + 15632 * v2
      h2  == Bit(c2) + 1024 * v2
      f3  == e12 + d13
      v3  == Low(f3)
      e13 == Bit(f3)
      g3  == h2 + d3
      c3  == g3 + 15632 * v3
      h3  == Bit(c3) + 1024 * v3
      f4  == e13 + d14
      v4  == Low(f4)
      e14 == Bit(f4)
      g4  == h3 + d4
      c4  == g4 + 15632 * v4
      h4  == Bit(c4) + 1024 * v4
      f5  == e14 + d15
      v5  == Low(f5)
      e15 == Bit(f5)
      g5  == h4 + d5
      c5  == g5 + 15632 * v5
      h5  == Bit(c5) + 1024 * v5
      f6  == e15 + d16
      v6  == Low(f6)
      e16 == Bit(f6)
      g6  == h5 + d6
      c6  == g6 + 15632 * v6
      h6  == Bit(c6) + 1024 * v6
      f7  == e16 + d17
      v7  == Low(f7)
      e17 == Bit(f7)
      g7  == h6 + d7
      c7  == g7 + 15632 * v7
      h7  == Bit(c7) + 1024 * v7
      f8  == e17 + d18
      v8  == Low(f8)
      e18 == Bit(f8)
      g8  == h7 + d8
      c8  == g8 + 15632 * v8
      h8  == Bit(c8) + 1024 * v8
      top == h8 + 15632 * e18 + t9
      r9  == (top % 4194304)
      cc  == top \div 4194304 + 16384 * e18
      a0  == 977 * cc + Low(c0)
      a1  == Bit(a0) + 64 * cc + Low(c1)
      r2  == Bit(a1) + Low(c2)
  IN  /\ f0 < U64 /\ c0 < U64 /\ h0 < U64 /\ f1 < U64 /\ c1 < U64 /\ h1 < U64
      /\ f2 < U64 /\ c2 < U64 /\ h2 < U64 /\ f3 < U64 /\ c3 < U64 /\ h3 < U64
      /\ f4 < U64 /\ c4 < U64 /\ h4 < U64 /\ f5 < U64 /\ c5 < U64 /\ h5 < U64
      /\ f6 < U64 /\ c6 < U64 /\ h6 < U64 /\ f7 < U64 /\ c7 < U64 /\ h7 < U64
      /\ f8 < U64 /\ c8 < U64 /\ h8 < U64 /\ top < U64 /\ cc < U64 /\ a0 < U64
      /\ a1 < U64 /\ r2 <= 2 * Full /\ 15632 * e18 < U64
      /\ Val(Low(a0), Low(a1), r2, Low(c3), Low(c4), Low(c5), Low(c6), Low(c7), Low(c8), r9)
           = d0
           + 67108864 * d1
           + 4503599627370496 * d2
           + 302231454903657293676544 * d3
           + 20282409603651670423947251286016 * d4
           + 1361129467683753853853498429727072845824 * d5
           + 91343852333181432387730302044767688728495783936 * d6
           + 6129982163463555433433388108601236734474956488734408704 * d7
           + 411376139330301510538742295639337626245683966408394965837152256 * d8
           + 27606985387162255149739023449108101809804435888681546220650096895197184 * d9
           + 1852673427797059126777135760139006525652319754650249024631321344126610074238976 * d10
           + 124330809102446660538845562036705210025114037699336929360115994223289874253133343883264 * d11
           + 8343699359066055009355553539724812947666814540455674882605631280555545803830627148527195652096 * d12
           + 559936185544451052639360570142111069530411374308662383724997275240947967795040236345219373317901778944 * d13
           + 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 * d14
           + 2521728396569246669585858566409191283525103313309788586748690777871726193375821479130513040312634601011624191379636224 * d15
           + 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 * d16
           + 11356855067118857664833184498250070849275646260739344691898284362197488876771842551971735167402555711886914400097909030211478150447104 * d17
           + 762145642166990290864647761179972242614403843424065222377723867096038022172794340849684107193235344521442121855812163792833978437326241529856 * d18
           - P * (16 * (v0 + 67108864 * v1 + 4503599627370496 * v2 + 302231454903657293676544 * v3 + 20282409603651670423947251286016 * v4 + 1361129467683753853853498429727072845824 * v5 + 91343852333181432387730302044767688728495783936 * v6 + 6129982163463555433433388108601236734474956488734408704 * v7 + 411376139330301510538742295639337626245683966408394965837152256 * v8 + 27606985387162255149739023449108101809804435888681546220650096895197184 * e18) + cc)

BadMul ==
  LET t9  == Low(d9)
      e9  == Bit(d9)
      f0  == e9 + d10
      v0  == Low(f0)
      e10 == Bit(f0)
      g0  == d0
      c0  == g0 + 15632 * v0
      h0  == Bit(c0) + 1024 * v0
      f1  == e10 + d11
      v1  == Low(f1)
      e11 == Bit(f1)
      g1  == h0 + d1
      c1  == g1 + 15632 * v1
      h1  == Bit(c1) + 1024 * v1
      f2  == e11 + d12
      v2  == Low(f2)
      e12 == Bit(f2)
      g2  == h1 + d2
      c2  == g2 + 15632 * v2
      h2  == Bit(c2) + 1024 * v2
      f3  == e12 + d13
      v3  == Low(f3)
      e13 == Bit(f3)
      g3  == h2 + d3
      c3  == g3 + 15632 * v3
      h3  == Bit(c3) + 1024 * v3
      f4  == e13 + d14
      v4  == Low(f4)
      e14 == Bit(f4)
      g4  == h3 + d4
      c4  == g4 + 15632 * v4
      h4  == Bit(c4) + 1024 * v4
      f5  == e14 + d15
      v5  == Low(f5)
      e15 == Bit(f5)
      g5  == h4 + d5
      c5  == g5 + 15632 * v5
      h5  == Bit(c5) + 1024 * v5
      f6  == e15 + d16
      v6  == Low(f6)
      e16 == Bit(f6)
      g6  == h5 + d6
      c6  == g6 + 15632 * v6
      h6  == Bit(c6) + 1024 * v6
      f7  == e16 + d17
      v7  == Low(f7)
      e17 == Bit(f7)
      g7  == h6 + d7
      c7  == g7 + 15632 * v7
      h7  == Bit(c7) + 1024 * v7
      f8  == e17 + d18
      v8  == Low(f8)
      e18 == Bit(f8)
      g8  == h7 + d8
      c8  == g8 + 15616 * v8
      h8  == Bit(c8) + 1024 * v8
      top == h8 + 15632 * e18 + t9
      r9  == (top % 4194304)
      cc  == top \div 4194304 + 16384 * e18
      a0  == 977 * cc + Low(c0)
      a1  == Bit(a0) + 64 * cc + Low(c1)
      r2  == Bit(a1) + Low(c2)
  IN  /\ f0 < U64 /\ c0 < U64 /\ h0 < U64 /\ f1 < U64 /\ c1 < U64 /\ h1 < U64
      /\ f2 < U64 /\ c2 < U64 /\ h2 < U64 /\ f3 < U64 /\ c3 < U64 /\ h3 < U64
      /\ f4 < U64 /\ c4 < U64 /\ h4 < U64 /\ f5 < U64 /\ c5 < U64 /\ h5 < U64
      /\ f6 < U64 /\ c6 < U64 /\ h6 < U64 /\ f7 < U64 /\ c7 < U64 /\ h7 < U64
      /\ f8 < U64 /\ c8 < U64 /\ h8 < U64 /\ top < U64 /\ cc < U64 /\ a0 < U64
      /\ a1 < U64 /\ r2 <= 2 * Full /\ 15632 * e18 < U64
      /\ Val(Low(a0), Low(a1), r2, Low(c3), Low(c4), Low(c5), Low(c6), Low(c7), Low(c8), r9)
           = d0
           + 67108864 * d1
           + 4503599627370496 * d2
           + 302231454903657293676544 * d3
           + 20282409603651670423947251286016 * d4
           + 1361129467683753853853498429727072845824 * d5
           + 91343852333181432387730302044767688728495783936 * d6
           + 6129982163463555433433388108601236734474956488734408704 * d7
           + 411376139330301510538742295639337626245683966408394965837152256 * d8
           + 27606985387162255149739023449108101809804435888681546220650096895197184 * d9
           + 1852673427797059126777135760139006525652319754650249024631321344126610074238976 * d10
           + 124330809102446660538845562036705210025114037699336929360115994223289874253133343883264 * d11
           + 8343699359066055009355553539724812947666814540455674882605631280555545803830627148527195652096 * d12
           + 559936185544451052639360570142111069530411374308662383724997275240947967795040236345219373317901778944 * d13
           + 37576681324381331646231689548629392438010920782533117931316655544515344401833735095419183974156299248510959616 * d14
           + 2521728396569246669585858566409191283525103313309788586748690777871726193375821479130513040312634601011624191379636224 * d15
           + 169230328010303641331690318856389386196071598838855992136870091590247882556495704531248437872567112920983350278405979725889536 * d16
           + 11356855067118857664833184498250070849275646260739344691898284362197488876771842551971735167402555711886914400097909030211478150447104 * d17
           + 762145642166990290864647761179972242614403843424065222377723867096038022172794340849684107193235344521442121855812163792833978437326241529856 * d18
           - P * (16 * (v0 + 67108864 * v1 + 4503599627370496 * v2 + 302231454903657293676544 * v3 + 20282409603651670423947251286016 * v4 + 1361129467683753853853498429727072845824 * v5 + 91343852333181432387730302044767688728495783936 * v6 + 6129982163463555433433388108601236734474956488734408704 * v7 + 411376139330301510538742295639337626245683966408394965837152256 * v8 + 27606985387162255149739023449108101809804435888681546220650096895197184 * e18) + cc)
=============================================================================
