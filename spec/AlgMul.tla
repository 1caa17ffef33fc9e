------------------------------- MODULE AlgMul -------------------------------
(***************************************************************************)
(* The scalar multiplication algorithms of the library, on a group of      *)
(* prime order n in which a point is its logarithm (an integer mod n, 0 is *)
(* infinity), with scalars of Bits bits. The group operations are those of *)
(* module AlgGroup; here each is used under its precondition, which is     *)
(* part of what is checked. Decides C05, C20 and C21 for the algorithms,   *)
(* for every scalar and every base point.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS n, Bits,      \* 2^(Bits-1) < n < 2^Bits, n prime
          WA, WG,       \* windows of the two parts of the variable-time combination
          WC,           \* window of the constant-time product; (WC - 1) divides Bits
          WB,           \* bits per window of the comb; divides Bits
          Nums,         \* logarithm of the comb's starting point
          Bases         \* base points

BitsOf(s, off, cnt) == (s \div 2^off) % 2^cnt
Neg(s) == (n - s) % n
IsHigh(s) == s > n \div 2
Mod(x) == x % n          \* TLC: in 0..n-1

(* ---- wNAF of the variable-time combination --------------------------------- *)
(* [d: digits, len: last nonzero + 1, carry] *)
RECURSIVE WnafFrom(_, _, _, _, _, _, _)
WnafFrom(s, sign, w, bit, carry, d, last) ==
  IF bit >= Bits THEN [d |-> d, len |-> last + 1, carry |-> carry]
  ELSE IF BitsOf(s, bit, 1) = carry THEN WnafFrom(s, sign, w, bit + 1, carry, d, last)
  ELSE LET now == IF w > Bits - bit THEN Bits - bit ELSE w
           word == BitsOf(s, bit, now) + carry
           c == (word \div 2^(w - 1)) % 2
       IN WnafFrom(s, sign, w, bit + now, c, [d EXCEPT ![bit + 1] = sign * (word - c * 2^w)], bit)
Wnaf(a, w) ==
  LET flip == a >= 2^(Bits - 1)
  IN WnafFrom(IF flip THEN Neg(a) ELSE a, IF flip THEN -1 ELSE 1, w, 0, 0, [i \in 1..Bits |-> 0], -1)

SumDigits(d, w) == LET f(acc, i) == 2^w * acc + d[i] IN FoldLeft(f, 0, [k \in 1..Len(d) |-> Len(d) + 1 - k])

WnafGood(a, w) ==
  LET r == Wnaf(a, w)
      v == SumDigits(r.d, 1)
  IN /\ r.carry = 0
     /\ v = IF a >= 2^(Bits - 1) THEN a - n ELSE a
     /\ \A i \in 1..Bits : r.d[i] # 0 => r.d[i] % 2 = 1 /\ r.d[i] < 2^(w - 1) /\ -r.d[i] < 2^(w - 1)
                                        /\ \A j \in (i + 1)..(i + w - 1) : j <= Bits => r.d[j] = 0
     /\ \A i \in (r.len + 1)..Bits : r.d[i] = 0

(* odd multiples; table_get_ge *)
Table(p, w) == [i \in 1..2^(w - 2) |-> Mod((2 * i - 1) * p)]
Get(t, d) == IF d > 0 THEN t[(d + 1) \div 2] ELSE Neg(t[(-d + 1) \div 2])

Combination(p, na, ng) ==
  LET wa == Wnaf(na, WA)
      wg == Wnaf(ng, WG)
      ta == Table(p, WA)
      tg == Table(1, WG)
      top == IF wa.len > wg.len THEN wa.len ELSE wg.len
      f(r, i) ==
        LET r1 == Mod(2 * r)
            r2 == IF i <= wa.len /\ wa.d[i] # 0 THEN Mod(r1 + Get(ta, wa.d[i])) ELSE r1
        IN IF i <= wg.len /\ wg.d[i] # 0 THEN Mod(r2 + Get(tg, wg.d[i])) ELSE r2
  IN FoldLeft(f, 0, [k \in 1..top |-> top + 1 - k])

(* ---- the constant-time product ------------------------------------------------ *)
(* [d, skew, rest]: digits of the recoded scalar, least significant first *)
WordsC == Bits \div (WC - 1)
ConstWnaf(a) ==
  LET w == WC - 1
      flip == IsHigh(a)
      bit == (IF flip THEN 1 ELSE 0) # a % 2
      notneg1 == Neg(a) # 1
      s1 == IF notneg1 THEN a + (IF bit THEN 2 ELSE 1) ELSE a
      s2 == IF flip THEN Neg(s1) ELSE s1
      sign == (IF flip THEN -1 ELSE 1) * (IF notneg1 THEN 1 ELSE -1)
      f(acc, k) ==      \* acc = [s, last, d]
        LET u0 == acc.s % 2^w
            even == u0 % 2 = 0
            sg == IF acc.last > 0 THEN 1 ELSE -1
            u == IF even THEN u0 + sg ELSE u0
            l == IF even THEN acc.last - sg * 2^w ELSE acc.last
        IN [s |-> acc.s \div 2^w, last |-> u, d |-> Append(acc.d, l * sign)]
      r == FoldLeft(f, [s |-> s2 \div 2^w, last |-> s2 % 2^w, d |-> <<>>], [k \in 1..WordsC |-> k])
  IN [d |-> Append(r.d, r.last * sign), skew |-> IF bit THEN 2 ELSE 1, rest |-> r.s, fits |-> s1 < n]

ConstWnafGood(a) ==
  LET r == ConstWnaf(a)
  IN /\ r.fits /\ r.rest = 0
     /\ Len(r.d) = WordsC + 1
     /\ \A i \in DOMAIN r.d : r.d[i] % 2 = 1 /\ r.d[i] < 2^(WC - 1) /\ -r.d[i] < 2^(WC - 1)
     /\ Mod(SumDigits(r.d, WC - 1)) = Mod(a + r.skew)

ConstTable(p) == [i \in 1..2^(WC - 2) |-> Mod((2 * i - 1) * p)]
RECURSIVE DoubleNz(_, _)     \* [r, ok]: k doublings, none of infinity
DoubleNz(x, k) == IF k = 0 THEN x ELSE DoubleNz([r |-> Mod(2 * x.r), ok |-> x.ok /\ x.r # 0], k - 1)
ConstProduct(p, a) ==
  LET w == ConstWnaf(a)
      t == ConstTable(p)
      f(acc, i) == LET x == DoubleNz(acc, WC - 1) IN [r |-> Mod(x.r + Get(t, w.d[i])), ok |-> x.ok]
      m == FoldLeft(f, [r |-> Get(t, w.d[WordsC + 1]), ok |-> TRUE], [k \in 1..WordsC |-> WordsC + 1 - k])
  IN [r |-> Mod(m.r - w.skew * p), ok |-> m.ok]

(* ---- the comb ------------------------------------------------------------------- *)
Windows == Bits \div WB
(* entry 0 of window j (from 0); the last is chosen so that they add up to infinity *)
Comb0(j) == IF j < Windows - 1 THEN Mod(2^j * Nums) ELSE Mod(Nums - 2^(Windows - 1) * Nums)
Comb(j, i) == Mod(Comb0(j) + i * 2^(WB * j))
CombSums == Mod(FoldLeft(LAMBDA acc, j : acc + Comb0(j), 0, [k \in 1..Windows |-> k - 1])) = 0
(* initial = -(blind * G), the scalar is blinded *)
CombProduct(a, blind) ==
  LET b == Mod(a + blind)
      f(acc, j) == Mod(acc + Comb(j, BitsOf(b, WB * j, WB)))
  IN FoldLeft(f, Neg(blind), [k \in 1..Windows |-> k - 1])

VARIABLES a, done
Init == a \in 0..(n - 1) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, done>>

Recodings == done => WnafGood(a, WA) /\ WnafGood(a, WG) /\ (a # 0 => ConstWnafGood(a))
Products == done =>
  /\ \A p \in Bases, g \in 0..(n - 1) : Combination(p, a, g) = Mod(a * p + g)
  /\ a # 0 => \A p \in Bases : LET c == ConstProduct(p, a) IN c.ok /\ c.r = Mod(a * p)
  /\ \A b \in 0..(n - 1) : CombProduct(a, b) = a
  /\ CombSums
=============================================================================
