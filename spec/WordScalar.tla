---------------------------- MODULE WordScalar ----------------------------
(* The arithmetic of scalars word by word, as the library does it on eight
   32-bit words, at full size: Apalache decides each invariant for all values
   of the words at once (256 or 512 bits of input), where the exploring models
   need a small group and the drawn vectors sample.  a and b are operands (b
   reduced where an operation wants it), flag a bit, pow a power of two or any
   other addend of one word.  Each operation is written with the carries of
   the code; each invariant says it is the arithmetic of the naturals.  The
   invariants called Bad.. are the same with one of the classic slips and must
   be refuted. *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  a0,
  \* @type: Int;
  a1,
  \* @type: Int;
  a2,
  \* @type: Int;
  a3,
  \* @type: Int;
  a4,
  \* @type: Int;
  a5,
  \* @type: Int;
  a6,
  \* @type: Int;
  a7,
  \* @type: Int;
  b0,
  \* @type: Int;
  b1,
  \* @type: Int;
  b2,
  \* @type: Int;
  b3,
  \* @type: Int;
  b4,
  \* @type: Int;
  b5,
  \* @type: Int;
  b6,
  \* @type: Int;
  b7,
  \* @type: Int;
  flag,
  \* @type: Int;
  pow

B == 4294967296
N == 115792089237316195423570985008687907852837564279074904382605163141518161494337
Lo(x) == x % B
Hi(x) == x \div B
Word(x) == 0 <= x /\ x < B
One(c) == IF c THEN 1 ELSE 0

\* the number that eight words stand for, least significant first
Val(w0, w1, w2, w3, w4, w5, w6, w7) ==
  w0 + B * w1
  + 18446744073709551616 * w2
  + 79228162514264337593543950336 * w3
  + 340282366920938463463374607431768211456 * w4
  + 1461501637330902918203684832716283019655932542976 * w5
  + 6277101735386680763835789423207666416102355444464034512896 * w6
  + 26959946667150639794667015087019630673637144422540572481103610249216 * w7

\* check_overflow: words against those of N from the top, keeping "below" and "above" without branching
Over(w0, w1, w2, w3, w4, w5, w6, w7) ==
  LET no5  == w7 < 4294967295 \/ w6 < 4294967295 \/ w5 < 4294967295
      no4  == no5 \/ w4 < 4294967294
      yes4 == w4 > 4294967294 /\ ~no4
      no3  == no4 \/ (w3 < 3132021990 /\ ~yes4)
      yes3 == yes4 \/ (w3 > 3132021990 /\ ~no3)
      no2  == no3 \/ (w2 < 2940772411 /\ ~yes3)
      yes2 == yes3 \/ (w2 > 2940772411 /\ ~no2)
      no1  == no2 \/ (w1 < 3218235020 /\ ~yes2)
      yes1 == yes2 \/ (w1 > 3218235020 /\ ~no1)
  IN yes1 \/ (w0 >= 3493216577 /\ ~no1)

A == Val(a0, a1, a2, a3, a4, a5, a6, a7)
Bv == Val(b0, b1, b2, b3, b4, b5, b6, b7)

Init ==
  /\ a0 \in Int /\ Word(a0)
  /\ a1 \in Int /\ Word(a1)
  /\ a2 \in Int /\ Word(a2)
  /\ a3 \in Int /\ Word(a3)
  /\ a4 \in Int /\ Word(a4)
  /\ a5 \in Int /\ Word(a5)
  /\ a6 \in Int /\ Word(a6)
  /\ a7 \in Int /\ Word(a7)
  /\ b0 \in Int /\ Word(b0)
  /\ b1 \in Int /\ Word(b1)
  /\ b2 \in Int /\ Word(b2)
  /\ b3 \in Int /\ Word(b3)
  /\ b4 \in Int /\ Word(b4)
  /\ b5 \in Int /\ Word(b5)
  /\ b6 \in Int /\ Word(b6)
  /\ b7 \in Int /\ Word(b7)
  /\ pow \in Int /\ Word(pow)
  /\ flag \in Int /\ 0 <= flag /\ flag <= 1

Next == UNCHANGED <<a0, a1, a2, a3, a4, a5, a6, a7, b0, b1, b2, b3, b4, b5, b6, b7, flag, pow>>

\* set_b32's verdict
OverflowRight == Over(a0, a1, a2, a3, a4, a5, a6, a7) <=> A >= N

\* is_high
HighRight ==
  LET no7  == a7 < 2147483647
      yes7 == a7 > 2147483647 /\ ~no7
      no4  == no7 \/ ((a6 < 4294967295 \/ a5 < 4294967295 \/ a4 < 4294967295) /\ ~yes7)
      no3  == no4 \/ (a3 < 1566010995 /\ ~yes7)
      yes3 == yes7 \/ (a3 > 1566010995 /\ ~no3)
      no2  == no3 \/ (a2 < 1470386205 /\ ~yes3)
      yes2 == yes3 \/ (a2 > 1470386205 /\ ~no2)
      no1  == no2 \/ (a1 < 3756601158 /\ ~yes2)
      yes1 == yes2 \/ (a1 > 3756601158 /\ ~no1)
      high == yes1 \/ (a0 > 1746608288 /\ ~no1)
  IN  high <=> A > 57896044618658097711785492504343953926418782139537452191302581570759080747168

\* set_b32 as a whole: one conditional subtraction of N, as an addition of 2^256 - N
ReduceRight ==
  LET o  == One(Over(a0, a1, a2, a3, a4, a5, a6, a7))
      u0 == a0 + 801750719 * o
      u1 == a1 + 1076732275 * o + Hi(u0)
      u2 == a2 + 1354194884 * o + Hi(u1)
      u3 == a3 + 1162945305 * o + Hi(u2)
      u4 == a4 + o + Hi(u3)
      u5 == a5 + Hi(u4)
      u6 == a6 + Hi(u5)
      u7 == a7 + Hi(u6)
  IN  Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) = IF A >= N THEN A - N ELSE A

BadReduceLosesCarry ==
  LET o  == One(Over(a0, a1, a2, a3, a4, a5, a6, a7))
      u0 == a0 + 801750719 * o
      u1 == a1 + 1076732275 * o + Hi(u0)
      u2 == a2 + 1354194884 * o + Hi(u1)
      u3 == a3 + 1162945305 * o
      u4 == a4 + o + Hi(u3)
      u5 == a5 + Hi(u4)
      u6 == a6 + Hi(u5)
      u7 == a7 + Hi(u6)
  IN  Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) = IF A >= N THEN A - N ELSE A

\* add_in_place
AddRight ==
  A < N /\ Bv < N =>
  LET t0 == a0 + b0
      t1 == a1 + b1 + Hi(t0)
      t2 == a2 + b2 + Hi(t1)
      t3 == a3 + b3 + Hi(t2)
      t4 == a4 + b4 + Hi(t3)
      t5 == a5 + b5 + Hi(t4)
      t6 == a6 + b6 + Hi(t5)
      t7 == a7 + b7 + Hi(t6)
      o  == One(Over(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7))) + Hi(t7)
      u0 == Lo(t0) + 801750719 * o
      u1 == Lo(t1) + 1076732275 * o + Hi(u0)
      u2 == Lo(t2) + 1354194884 * o + Hi(u1)
      u3 == Lo(t3) + 1162945305 * o + Hi(u2)
      u4 == Lo(t4) + o + Hi(u3)
      u5 == Lo(t5) + Hi(u4)
      u6 == Lo(t6) + Hi(u5)
      u7 == Lo(t7) + Hi(u6)
  IN  /\ o <= 1
      /\ Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) = IF A + Bv >= N THEN A + Bv - N ELSE A + Bv

BadAddForgetsTop ==
  A < N /\ Bv < N =>
  LET t0 == a0 + b0
      t1 == a1 + b1 + Hi(t0)
      t2 == a2 + b2 + Hi(t1)
      t3 == a3 + b3 + Hi(t2)
      t4 == a4 + b4 + Hi(t3)
      t5 == a5 + b5 + Hi(t4)
      t6 == a6 + b6 + Hi(t5)
      t7 == a7 + b7 + Hi(t6)
      o  == One(Over(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)))
      u0 == Lo(t0) + 801750719 * o
      u1 == Lo(t1) + 1076732275 * o + Hi(u0)
      u2 == Lo(t2) + 1354194884 * o + Hi(u1)
      u3 == Lo(t3) + 1162945305 * o + Hi(u2)
      u4 == Lo(t4) + o + Hi(u3)
      u5 == Lo(t5) + Hi(u4)
      u6 == Lo(t6) + Hi(u5)
      u7 == Lo(t7) + Hi(u6)
  IN  /\ o <= 1
      /\ Val(Lo(u0), Lo(u1), Lo(u2), Lo(u3), Lo(u4), Lo(u5), Lo(u6), Lo(u7)) = IF A + Bv >= N THEN A + Bv - N ELSE A + Bv

\* cond_neg_assign: complement, add N, add one, and blank the words of zero
NegRight ==
  A < N =>
  LET zero == A = 0
      t0   == flag + (IF flag = 1 THEN 4294967295 - a0 + 3493216577 ELSE a0)
      t1   == Hi(t0) + (IF flag = 1 THEN 4294967295 - a1 + 3218235020 ELSE a1)
      t2   == Hi(t1) + (IF flag = 1 THEN 4294967295 - a2 + 2940772411 ELSE a2)
      t3   == Hi(t2) + (IF flag = 1 THEN 4294967295 - a3 + 3132021990 ELSE a3)
      t4   == Hi(t3) + (IF flag = 1 THEN 4294967295 - a4 + 4294967294 ELSE a4)
      t5   == Hi(t4) + (IF flag = 1 THEN 4294967295 - a5 + 4294967295 ELSE a5)
      t6   == Hi(t5) + (IF flag = 1 THEN 4294967295 - a6 + 4294967295 ELSE a6)
      t7   == Hi(t6) + (IF flag = 1 THEN 4294967295 - a7 + 4294967295 ELSE a7)
  IN  (IF zero THEN 0 ELSE Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7))) = IF flag = 1 /\ A > 0 THEN N - A ELSE A

BadNegOfZero ==
  A < N =>
  LET zero == FALSE
      t0   == flag + (IF flag = 1 THEN 4294967295 - a0 + 3493216577 ELSE a0)
      t1   == Hi(t0) + (IF flag = 1 THEN 4294967295 - a1 + 3218235020 ELSE a1)
      t2   == Hi(t1) + (IF flag = 1 THEN 4294967295 - a2 + 2940772411 ELSE a2)
      t3   == Hi(t2) + (IF flag = 1 THEN 4294967295 - a3 + 3132021990 ELSE a3)
      t4   == Hi(t3) + (IF flag = 1 THEN 4294967295 - a4 + 4294967294 ELSE a4)
      t5   == Hi(t4) + (IF flag = 1 THEN 4294967295 - a5 + 4294967295 ELSE a5)
      t6   == Hi(t5) + (IF flag = 1 THEN 4294967295 - a6 + 4294967295 ELSE a6)
      t7   == Hi(t6) + (IF flag = 1 THEN 4294967295 - a7 + 4294967295 ELSE a7)
  IN  (IF zero THEN 0 ELSE Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7))) = IF flag = 1 /\ A > 0 THEN N - A ELSE A

\* cadd_bit (the addend sits in one of the words)
CaddRight ==
  /\ LET t0 == a0 + pow
        t1 == a1 + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 1 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 1 * pow
  /\ LET t0 == a0
        t1 == a1 + pow + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 4294967296 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 4294967296 * pow
  /\ LET t0 == a0
        t1 == a1 + Hi(t0)
        t2 == a2 + pow + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 18446744073709551616 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 18446744073709551616 * pow
  /\ LET t0 == a0
        t1 == a1 + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + pow + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 79228162514264337593543950336 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 79228162514264337593543950336 * pow
  /\ LET t0 == a0
        t1 == a1 + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + pow + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 340282366920938463463374607431768211456 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 340282366920938463463374607431768211456 * pow
  /\ LET t0 == a0
        t1 == a1 + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + pow + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 1461501637330902918203684832716283019655932542976 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 1461501637330902918203684832716283019655932542976 * pow
  /\ LET t0 == a0
        t1 == a1 + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + pow + Hi(t5)
        t7 == a7 + Hi(t6)
    IN  A + 6277101735386680763835789423207666416102355444464034512896 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 6277101735386680763835789423207666416102355444464034512896 * pow
  /\ LET t0 == a0
        t1 == a1 + Hi(t0)
        t2 == a2 + Hi(t1)
        t3 == a3 + Hi(t2)
        t4 == a4 + Hi(t3)
        t5 == a5 + Hi(t4)
        t6 == a6 + Hi(t5)
        t7 == a7 + pow + Hi(t6)
    IN  A + 26959946667150639794667015087019630673637144422540572481103610249216 * pow < N => Hi(t7) = 0 /\ Val(Lo(t0), Lo(t1), Lo(t2), Lo(t3), Lo(t4), Lo(t5), Lo(t6), Lo(t7)) = A + 26959946667150639794667015087019630673637144422540572481103610249216 * pow

\* shr_int by every amount it takes; the bits shifted off are those of the lowest word
ShrRight ==
  /\ 2 * Val(a0 \div 2 + (a1 % 2) * 2147483648,
            a1 \div 2 + (a2 % 2) * 2147483648,
            a2 \div 2 + (a3 % 2) * 2147483648,
            a3 \div 2 + (a4 % 2) * 2147483648,
            a4 \div 2 + (a5 % 2) * 2147483648,
            a5 \div 2 + (a6 % 2) * 2147483648,
            a6 \div 2 + (a7 % 2) * 2147483648,
            a7 \div 2)
     + (a0 % 2) = A
  /\ 4 * Val(a0 \div 4 + (a1 % 4) * 1073741824,
            a1 \div 4 + (a2 % 4) * 1073741824,
            a2 \div 4 + (a3 % 4) * 1073741824,
            a3 \div 4 + (a4 % 4) * 1073741824,
            a4 \div 4 + (a5 % 4) * 1073741824,
            a5 \div 4 + (a6 % 4) * 1073741824,
            a6 \div 4 + (a7 % 4) * 1073741824,
            a7 \div 4)
     + (a0 % 4) = A
  /\ 8 * Val(a0 \div 8 + (a1 % 8) * 536870912,
            a1 \div 8 + (a2 % 8) * 536870912,
            a2 \div 8 + (a3 % 8) * 536870912,
            a3 \div 8 + (a4 % 8) * 536870912,
            a4 \div 8 + (a5 % 8) * 536870912,
            a5 \div 8 + (a6 % 8) * 536870912,
            a6 \div 8 + (a7 % 8) * 536870912,
            a7 \div 8)
     + (a0 % 8) = A
  /\ 16 * Val(a0 \div 16 + (a1 % 16) * 268435456,
            a1 \div 16 + (a2 % 16) * 268435456,
            a2 \div 16 + (a3 % 16) * 268435456,
            a3 \div 16 + (a4 % 16) * 268435456,
            a4 \div 16 + (a5 % 16) * 268435456,
            a5 \div 16 + (a6 % 16) * 268435456,
            a6 \div 16 + (a7 % 16) * 268435456,
            a7 \div 16)
     + (a0 % 16) = A
  /\ 32 * Val(a0 \div 32 + (a1 % 32) * 134217728,
            a1 \div 32 + (a2 % 32) * 134217728,
            a2 \div 32 + (a3 % 32) * 134217728,
            a3 \div 32 + (a4 % 32) * 134217728,
            a4 \div 32 + (a5 % 32) * 134217728,
            a5 \div 32 + (a6 % 32) * 134217728,
            a6 \div 32 + (a7 % 32) * 134217728,
            a7 \div 32)
     + (a0 % 32) = A
  /\ 64 * Val(a0 \div 64 + (a1 % 64) * 67108864,
            a1 \div 64 + (a2 % 64) * 67108864,
            a2 \div 64 + (a3 % 64) * 67108864,
            a3 \div 64 + (a4 % 64) * 67108864,
            a4 \div 64 + (a5 % 64) * 67108864,
            a5 \div 64 + (a6 % 64) * 67108864,
            a6 \div 64 + (a7 % 64) * 67108864,
            a7 \div 64)
     + (a0 % 64) = A
  /\ 128 * Val(a0 \div 128 + (a1 % 128) * 33554432,
            a1 \div 128 + (a2 % 128) * 33554432,
            a2 \div 128 + (a3 % 128) * 33554432,
            a3 \div 128 + (a4 % 128) * 33554432,
            a4 \div 128 + (a5 % 128) * 33554432,
            a5 \div 128 + (a6 % 128) * 33554432,
            a6 \div 128 + (a7 % 128) * 33554432,
            a7 \div 128)
     + (a0 % 128) = A
  /\ 256 * Val(a0 \div 256 + (a1 % 256) * 16777216,
            a1 \div 256 + (a2 % 256) * 16777216,
            a2 \div 256 + (a3 % 256) * 16777216,
            a3 \div 256 + (a4 % 256) * 16777216,
            a4 \div 256 + (a5 % 256) * 16777216,
            a5 \div 256 + (a6 % 256) * 16777216,
            a6 \div 256 + (a7 % 256) * 16777216,
            a7 \div 256)
     + (a0 % 256) = A
  /\ 512 * Val(a0 \div 512 + (a1 % 512) * 8388608,
            a1 \div 512 + (a2 % 512) * 8388608,
            a2 \div 512 + (a3 % 512) * 8388608,
            a3 \div 512 + (a4 % 512) * 8388608,
            a4 \div 512 + (a5 % 512) * 8388608,
            a5 \div 512 + (a6 % 512) * 8388608,
            a6 \div 512 + (a7 % 512) * 8388608,
            a7 \div 512)
     + (a0 % 512) = A
  /\ 1024 * Val(a0 \div 1024 + (a1 % 1024) * 4194304,
            a1 \div 1024 + (a2 % 1024) * 4194304,
            a2 \div 1024 + (a3 % 1024) * 4194304,
            a3 \div 1024 + (a4 % 1024) * 4194304,
            a4 \div 1024 + (a5 % 1024) * 4194304,
            a5 \div 1024 + (a6 % 1024) * 4194304,
            a6 \div 1024 + (a7 % 1024) * 4194304,
            a7 \div 1024)
     + (a0 % 1024) = A
  /\ 2048 * Val(a0 \div 2048 + (a1 % 2048) * 2097152,
            a1 \div 2048 + (a2 % 2048) * 2097152,
            a2 \div 2048 + (a3 % 2048) * 2097152,
            a3 \div 2048 + (a4 % 2048) * 2097152,
            a4 \div 2048 + (a5 % 2048) * 2097152,
            a5 \div 2048 + (a6 % 2048) * 2097152,
            a6 \div 2048 + (a7 % 2048) * 2097152,
            a7 \div 2048)
     + (a0 % 2048) = A
  /\ 4096 * Val(a0 \div 4096 + (a1 % 4096) * 1048576,
            a1 \div 4096 + (a2 % 4096) * 1048576,
            a2 \div 4096 + (a3 % 4096) * 1048576,
            a3 \div 4096 + (a4 % 4096) * 1048576,
            a4 \div 4096 + (a5 % 4096) * 1048576,
            a5 \div 4096 + (a6 % 4096) * 1048576,
            a6 \div 4096 + (a7 % 4096) * 1048576,
            a7 \div 4096)
     + (a0 % 4096) = A
  /\ 8192 * Val(a0 \div 8192 + (a1 % 8192) * 524288,
            a1 \div 8192 + (a2 % 8192) * 524288,
            a2 \div 8192 + (a3 % 8192) * 524288,
            a3 \div 8192 + (a4 % 8192) * 524288,
            a4 \div 8192 + (a5 % 8192) * 524288,
            a5 \div 8192 + (a6 % 8192) * 524288,
            a6 \div 8192 + (a7 % 8192) * 524288,
            a7 \div 8192)
     + (a0 % 8192) = A
  /\ 16384 * Val(a0 \div 16384 + (a1 % 16384) * 262144,
            a1 \div 16384 + (a2 % 16384) * 262144,
            a2 \div 16384 + (a3 % 16384) * 262144,
            a3 \div 16384 + (a4 % 16384) * 262144,
            a4 \div 16384 + (a5 % 16384) * 262144,
            a5 \div 16384 + (a6 % 16384) * 262144,
            a6 \div 16384 + (a7 % 16384) * 262144,
            a7 \div 16384)
     + (a0 % 16384) = A
  /\ 32768 * Val(a0 \div 32768 + (a1 % 32768) * 131072,
            a1 \div 32768 + (a2 % 32768) * 131072,
            a2 \div 32768 + (a3 % 32768) * 131072,
            a3 \div 32768 + (a4 % 32768) * 131072,
            a4 \div 32768 + (a5 % 32768) * 131072,
            a5 \div 32768 + (a6 % 32768) * 131072,
            a6 \div 32768 + (a7 % 32768) * 131072,
            a7 \div 32768)
     + (a0 % 32768) = A
=============================================================================
