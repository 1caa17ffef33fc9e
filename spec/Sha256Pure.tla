---------------------------- MODULE Sha256Pure ----------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4), HMAC-SHA256 (RFC 2104). TLC integers are 32-bit   *)
(* signed, so a 32-bit word is a pair <<high, low>> of 16-bit halves.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

W(h, l) == <<h, l>>
WAdd(a, b) ==
  LET l == a[2] + b[2]
      h == a[1] + b[1] + (l \div 65536)
  IN <<h % 65536, l % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
(* rotate right by 0 < n < 16 *)
WRor16(a, n) ==
  LET p == 2 ^ n
      q == 2 ^ (16 - n)
  IN <<(a[1] \div p) + ((a[2] % p) * q), (a[2] \div p) + ((a[1] % p) * q)>>
WSwap(a) == <<a[2], a[1]>>
WRor(a, n) == IF n < 16 THEN WRor16(a, n) ELSE IF n = 16 THEN WSwap(a) ELSE WRor16(WSwap(a), n - 16)
WShr(a, n) ==
  LET p == 2 ^ n
      q == 2 ^ (16 - n)
  IN <<a[1] \div p, (a[2] \div p) + ((a[1] % p) * q)>>

ShaK == <<
 <<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,
 <<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,<<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,
 <<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,
 <<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,
 <<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,<<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,
 <<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,
 <<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,
 <<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,<<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>> >>

ShaInit == << <<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,<<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>> >>

WordsOf(block) ==
  [i \in 1..16 |-> <<block[4*i-3] * 256 + block[4*i-2], block[4*i-1] * 256 + block[4*i]>>]

Schedule(block) ==
  LET grow(w, t) ==
        LET s0 == WXor(WXor(WRor(w[t-15], 7), WRor(w[t-15], 18)), WShr(w[t-15], 3))
            s1 == WXor(WXor(WRor(w[t-2], 17), WRor(w[t-2], 19)), WShr(w[t-2], 10))
        IN Append(w, WAdd(WAdd(w[t-16], s0), WAdd(w[t-7], s1)))
  IN FoldLeft(grow, WordsOf(block), [i \in 1..48 |-> i + 16])

Compress(h, block) ==
  LET w == Schedule(block)
      round(v, t) ==
        LET S1 == WXor(WXor(WRor(v[5], 6), WRor(v[5], 11)), WRor(v[5], 25))
            ch == WXor(WAnd(v[5], v[6]), WAnd(WNot(v[5]), v[7]))
            t1 == WAdd(WAdd(WAdd(v[8], S1), WAdd(ch, ShaK[t])), w[t])
            S0 == WXor(WXor(WRor(v[1], 2), WRor(v[1], 13)), WRor(v[1], 22))
            mj == WXor(WXor(WAnd(v[1], v[2]), WAnd(v[1], v[3])), WAnd(v[2], v[3]))
            t2 == WAdd(S0, mj)
        IN <<WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7]>>
      r == FoldLeft(round, h, [i \in 1..64 |-> i])
  IN [i \in 1..8 |-> WAdd(h[i], r[i])]

ShaPad(m) ==
  LET l == Len(m)
      z == (119 - (l % 64)) % 64
      bl == 8 * l
  IN m \o <<128>> \o [i \in 1..z |-> 0] \o
     <<0, 0, 0, 0, (bl \div 16777216) % 256, (bl \div 65536) % 256, (bl \div 256) % 256, bl % 256>>

PureSha256(m) ==
  LET p == ShaPad(m)
      h == FoldLeft(LAMBDA acc, i : Compress(acc, SubSeq(p, 64 * i - 63, 64 * i)),
                    ShaInit, [i \in 1..(Len(p) \div 64) |-> i])
      o(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
  IN o(h[1]) \o o(h[2]) \o o(h[3]) \o o(h[4]) \o o(h[5]) \o o(h[6]) \o o(h[7]) \o o(h[8])
===========================================================================
