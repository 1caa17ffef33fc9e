---------------------------- MODULE WordEcdsa ----------------------------
(* The comparisons and choices around a signature, at full size, with the sizes
   of secp256k1: what relates a coordinate x of a point (below P) with the r of
   a signature (below N < P), s with its lower form, and octets with residues.
   Apalache decides each invariant for all values at once.  In the small
   instances of AlgEcdsa the gap between P and N is wide, and whole algorithms
   are run; here it is the true one, 2^-128 of all values, which no drawn value
   falls into.  The invariants called Bad.. hold a classic slip each and must be
   refuted. *)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  x,
  \* @type: Int;
  r,
  \* @type: Int;
  s,
  \* @type: Int;
  m,
  \* @type: Int;
  k

P == 115792089237316195423570985008687907853269984665640564039457584007908834671663
N == 115792089237316195423570985008687907852837564279074904382605163141518161494337
Two256 == 115792089237316195423570985008687907853269984665640564039457584007913129639936
Half == N \div 2

Init == /\ x \in Int /\ 0 <= x /\ x < P          \* a coordinate
        /\ r \in Int /\ 0 < r /\ r < N           \* parts of a signature
        /\ s \in Int /\ 0 < s /\ s < N
        /\ m \in Int /\ 0 <= m /\ m < Two256     \* 32 octets
        /\ k \in Int /\ 0 < k /\ k < N           \* a key
Next == UNCHANGED <<x, r, s, m, k>>

Residue(v) == IF v >= N THEN v - N ELSE v        \* one subtraction, as in set_b32
FieldResidue(v) == IF v >= P THEN v - P ELSE v

(* ---- r and the coordinate ------------------------------------------------------- *)
ResidueRight == Residue(m) = m % N /\ Residue(x) = x % N /\ FieldResidue(m) = m % P
\* verification: equal, or r + n equal where that is a coordinate at all
Accepts == x = r \/ (r < P - N /\ x = r + N)
AcceptsRight == Accepts <=> (x % N = r)
\* signing: bit 1 of the id says that the coordinate was not below n; recovery undoes it
Over == x >= N
Back == IF Over THEN Residue(x) + N ELSE Residue(x)
RecoverRight == /\ Back = x
                /\ (Over => Residue(x) < P - N)
                /\ x < 2 * N
\* recovery refuses exactly the ids that no coordinate has
CandidateRight == (r < P - N) <=> (r + N < P)

(* ---- the lower half ------------------------------------------------------------- *)
High(v) == v > Half
Lower(v) == IF High(v) THEN N - v ELSE v
LowRight == /\ ~High(Lower(s)) /\ Lower(Lower(s)) = Lower(s) /\ 0 < Lower(s)
            /\ Lower(s) = Lower(N - s)
            /\ (High(s) <=> ~High(N - s))         \* no value is its own twin
            /\ (Lower(s) % N = s % N \/ (Lower(s) + s) % N = 0)

(* ---- keys and tweaks -------------------------------------------------------------- *)
\* 32 octets are a key when they are not zero and below n; otherwise they are refused, not reduced
KeyRight == (0 < m /\ Residue(m) = m) <=> (0 < m /\ m < N)
Sum(u, v) == Residue(u + v)
TweakRight == /\ 0 <= Sum(k, s) /\ Sum(k, s) < N
              /\ (Sum(k, s) = 0 <=> s = N - k)
              /\ Sum(Sum(k, s), N - s) = k         \* a tweak is undone by its negation
              /\ Sum(k, s) = Sum(s, k)

(* ---- classic slips ----------------------------------------------------------------- *)
\* without the second chance, without its guard (r + n taken modulo p), and with the guard one off
BadOneChance == (x = r) <=> (x % N = r)
BadNoGuard == (x = r \/ x = FieldResidue(r + N)) <=> (x % N = r)
BadGuard == (x = r \/ (r <= P - N /\ x = FieldResidue(r + N))) <=> (x % N = r)
\* high from the middle on, where the middle itself is low
BadHigh == LET hi(v) == v >= Half IN LET lo(v) == IF hi(v) THEN N - v ELSE v IN lo(lo(s)) = lo(s)
\* a coordinate taken for one of field size when it is not reduced
BadResidue == Residue(m) = m % P
=============================================================================
