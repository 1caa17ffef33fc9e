------------------------------- MODULE Base64 -------------------------------
(***************************************************************************)
(* Standard padded base64 (RFC 4648, canonical). Text is a sequence of     *)
(* character codes.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Char64(v) ==
  IF v < 26 THEN 65 + v            \* A-Z
  ELSE IF v < 52 THEN 97 + v - 26  \* a-z
  ELSE IF v < 62 THEN 48 + v - 52  \* 0-9
  ELSE IF v = 62 THEN 43 ELSE 47   \* + /
Pad64 == 61

Val64(c) ==
  IF c >= 65 /\ c <= 90 THEN c - 65
  ELSE IF c >= 97 /\ c <= 122 THEN c - 97 + 26
  ELSE IF c >= 48 /\ c <= 57 THEN c - 48 + 52
  ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

Encode64(b) ==
  LET at(i) == IF i <= Len(b) THEN b[i] ELSE 0
      grp(acc, g) ==
        LET i == 3 * g - 2
            x == at(i)
            y == at(i + 1)
            z == at(i + 2)
        IN acc \o << Char64(x \div 4), Char64((x % 4) * 16 + y \div 16),
                     IF i + 1 <= Len(b) THEN Char64((y % 16) * 4 + z \div 64) ELSE Pad64,
                     IF i + 2 <= Len(b) THEN Char64(z % 64) ELSE Pad64 >>
  IN FoldLeft(grp, <<>>, [g \in 1..((Len(b) + 2) \div 3) |-> g])

(* [ok, b]: decodes exactly the range of Encode64. *)
Decode64(t) ==
  LET n == Len(t)
      pads == IF n >= 2 /\ t[n] = Pad64 /\ t[n - 1] = Pad64 THEN 2
              ELSE IF n >= 1 /\ t[n] = Pad64 THEN 1 ELSE 0
      data == SubSeq(t, 1, n - pads)
      good == n % 4 = 0 /\ \A i \in DOMAIN data : Val64(data[i]) >= 0
      v(i) == IF i <= Len(data) THEN Val64(data[i]) ELSE 0
      grp(acc, g) ==
        LET i == 4 * g - 3
        IN acc \o << v(i) * 4 + v(i + 1) \div 16, (v(i + 1) % 16) * 16 + v(i + 2) \div 4,
                     (v(i + 2) % 4) * 64 + v(i + 3) >>
      all == FoldLeft(grp, <<>>, [g \in 1..(n \div 4) |-> g])
      b == SubSeq(all, 1, Len(all) - pads)
  IN IF good /\ Encode64(b) = t THEN [ok |-> TRUE, b |-> b] ELSE [ok |-> FALSE, b |-> <<>>]
=============================================================================
