---------------------------- MODULE WordRecode ----------------------------
(* How a scalar is taken apart into digits before it is multiplied, at full
   size.  Apalache decides each invariant for every scalar and for every state
   a recoding can be in, one step at a time: the state before a step is any
   that keeps the loop's invariant, and the step is shown to keep it, to lose
   nothing of what is left and to yield a digit that the table has.  With
   AlgMul (where whole recodings are run on small groups) this is the argument
   by induction over the number of steps.

   Variable-time recoding in windows of w bits: rest is what is left of the
   scalar above the bits consumed, c the carry into it.  The scalar is below
   2^255 (it is negated when it is not), so with `room` bits left rest is below
   2^(room-1); top stands for that power, which is t * 2^w while more than w bits
   are left and one of the first powers of two (2^k) near the end.

   Constant-time recoding in windows of 4 bits: rest is what has not been shifted
   out, last the digit that may still change by its neighbour.  *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  a,
  \* @type: Int;
  rest,
  \* @type: Int;
  c,
  \* @type: Int;
  t,
  \* @type: Int;
  last

N == 115792089237316195423570985008687907852837564279074904382605163141518161494337
P255 == 57896044618658097711785492504343953926634992332820282019728792003956564819968
P256 == 2 * P255

Init == /\ a \in Int /\ 0 <= a /\ a < N
        /\ rest \in Int /\ 0 <= rest
        /\ c \in 0..1
        /\ t \in Int /\ 1 <= t
        /\ last \in Int
Next == UNCHANGED <<a, rest, c, t, last>>

(* ---- the scalar is made small ------------------------------------------------ *)
Small(x) == IF x >= P255 THEN N - x ELSE x
SmallRight == Small(a) < P255 /\ Small(a) >= 0 /\ (Small(a) = a \/ Small(a) = N - a)

(* ---- variable time: one step -------------------------------------------------- *)
\* [d, r, c]: digit, what is left and the carry into it, after taking `now` of a window of w bits
Take(pw, pnow, r, cc) ==
  LET word == (r % pnow) + cc
      c2 == (word \div (pw \div 2)) % 2
  IN [d |-> word - c2 * pw, r |-> r \div pnow, c |-> c2]
\* a digit for a table of odd multiples, and nothing lost
Digit(pw, d) == d % 2 = 1 /\ d < pw \div 2 /\ -d < pw \div 2
\* @type: (Int, Int, Int, { d: Int, r: Int, c: Int }) => Bool;
Kept(pnow, r, cc, x) == r + cc = x.d + pnow * (x.r + x.c)

\* more than w bits are left: rest < t * 2^w
Far(pw) == (rest % 2 # c /\ rest < t * pw) =>
  LET x == Take(pw, pw, rest, c)
  IN Digit(pw, x.d) /\ Kept(pw, rest, c, x) /\ x.c \in 0..1 /\ 0 <= x.r /\ x.r < t
FarRight == Far(32) /\ Far(65536)

\* a bit equal to the carry is passed over, with any room left
SkipRight == (rest % 2 = c /\ rest < 2 * t) =>
  rest + c = 2 * (rest \div 2 + c) /\ rest \div 2 < t
\* the last bit of all: rest < 1, and what ends there ends without a carry
SkipLastRight == (rest % 2 = c /\ rest < 1) => c = 0

\* at most w bits are left, 2 * pk is their power: rest < pk, and the scalar ends here
Near(pw, pk) == (rest % 2 # c /\ rest < pk) =>
  LET x == Take(pw, 2 * pk, rest, c)
  IN Digit(pw, x.d) /\ Kept(2 * pk, rest, c, x) /\ x.r = 0 /\ x.c = 0
\* (windows of 5 bits, of 16 bits)
NearRight == /\ Near(32, 1) /\ Near(32, 2) /\ Near(32, 4) /\ Near(32, 8) /\ Near(32, 16)
             /\ Near(65536, 1) /\ Near(65536, 2) /\ Near(65536, 4) /\ Near(65536, 8)
             /\ Near(65536, 16) /\ Near(65536, 32) /\ Near(65536, 64) /\ Near(65536, 128)
             /\ Near(65536, 256) /\ Near(65536, 512) /\ Near(65536, 1024) /\ Near(65536, 2048)
             /\ Near(65536, 4096) /\ Near(65536, 8192) /\ Near(65536, 16384) /\ Near(65536, 32768)

(* ---- constant time: the scalar is made odd ------------------------------------- *)
Flip == a > N \div 2
Bit == Flip # (a % 2 = 1)
Skew == IF Bit THEN 2 ELSE 1
MinusOne == (N - a) % N = 1
Odd(except) ==
  LET s1 == IF except /\ MinusOne THEN a ELSE a + Skew
      s2 == IF Flip THEN N - s1 ELSE s1
      sign == (IF Flip THEN -1 ELSE 1) * (IF except /\ MinusOne THEN -1 ELSE 1)
  IN [s |-> s2, sign |-> sign, fits |-> s1 < N]
\* @type: { s: Int, sign: Int, fits: Bool } => Bool;
OddGood(x) == /\ x.fits /\ x.s % 2 = 1 /\ 0 < x.s /\ x.s < P255
              /\ (x.sign * x.s - (a + Skew)) % N = 0
OddRight == OddGood(Odd(TRUE))

(* ---- constant time: one step ----------------------------------------------------- *)
LastOk(u) == u % 2 = 1 /\ -1 <= u /\ u <= 15
Step(positive(_)) ==
  LET u0 == rest % 16
      even == u0 % 2 = 0
      sg == IF positive(last) THEN 1 ELSE -1
      u == IF even THEN u0 + sg ELSE u0
      d == IF even THEN last - sg * 16 ELSE last
  IN [d |-> d, u |-> u, r |-> rest \div 16]
\* @type: { d: Int, u: Int, r: Int } => Bool;
StepGood(x) == /\ Digit(32, x.d) /\ LastOk(x.u)
               /\ last + 16 * rest = x.d + 16 * (x.u + 16 * x.r)
               /\ 0 <= x.r /\ (rest < 16 * t => x.r < t)
StepRight == LastOk(last) => LET P(x) == x > 0 IN StepGood(Step(P))
\* the first digit of an odd scalar is one that may still change; 64 more shifts leave nothing
FirstRight == a % 2 = 1 => LastOk(a % 16)
EndRight == LastOk(last) => Digit(32, last)

(* ---- the comb --------------------------------------------------------------------- *)
\* a window of the blinded scalar and the rest: what each of the 64 additions stands for
CombRight == LET d == rest % 16 IN rest = d + 16 * (rest \div 16) /\ 0 <= d /\ d <= 15

(* ---- the classic slips -------------------------------------------------------------- *)
\* a scalar that was not made small carries out of its last window
BadNearUnflipped == (rest % 2 # c /\ rest < 32) =>
  LET x == Take(32, 32, rest, c) IN Digit(32, x.d) /\ x.c = 0
\* the carry taken from the bit above the window
BadCarry == (rest % 2 # c /\ rest < t * 32) =>
  LET word == (rest % 32) + c
      c2 == (word \div 32) % 2
  IN Digit(32, word - c2 * 32)
\* minus one treated like the others
BadMinusOne == OddGood(Odd(FALSE))
\* the neighbour's sign asked with >= -1
BadSign == LastOk(last) => LET P(x) == x >= -1 IN StepGood(Step(P))
=============================================================================
