------------------------------- MODULE Small -------------------------------
(* Curves of prime order over F_p, p = 3 mod 4, whose points TLC can       *)
(* enumerate, with both orders of p and n: as on secp256k1 an x coordinate *)
(* may be n or more when p > n.                                            *)
EXTENDS Integers
One1 == 1
P7 == <<7>>     N7 == <<13>>    B7 == <<3>>    GX7 == <<1>>    GY7 == <<2>>
P19 == <<19>>   N19 == <<13>>   B19 == <<2>>   GX19 == <<4>>   GY19 == <<3>>
P43 == <<43>>   N43 == <<31>>   B43 == <<7>>   GX43 == <<2>>   GY43 == <<12>>
=============================================================================
