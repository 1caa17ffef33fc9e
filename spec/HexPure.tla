------------------------------ MODULE HexPure ------------------------------
(* Lower-case hexadecimal text <-> octet strings. *)
EXTENDS Integers, Sequences

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
DigitVal(c) == (CHOOSE i \in 1..16 : HexDigits[i] = c) - 1

PureUnhex(s) ==
  [i \in 1..(Len(s) \div 2) |->
     16 * DigitVal(SubSeq(s, 2 * i - 1, 2 * i - 1)) + DigitVal(SubSeq(s, 2 * i, 2 * i))]

RECURSIVE PureHex(_)
PureHex(b) ==
  IF b = <<>> THEN ""
  ELSE HexDigits[(b[1] \div 16) + 1] \o HexDigits[(b[1] % 16) + 1] \o PureHex(Tail(b))
============================================================================
