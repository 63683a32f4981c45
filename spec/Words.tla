------------------------------- MODULE Words -------------------------------
(* Fixed-width machine words for TLC.                                       *)
(*                                                                         *)
(* TLC integers are 32-bit signed, so a w-bit word is a tuple of 16-bit     *)
(* limbs, LEAST significant limb first: a 32-bit word is <<l0,l1>>, a       *)
(* 64-bit word is <<l0,l1,l2,l3>>.  All arithmetic is modulo 2^w.           *)
EXTENDS Integers, Sequences, Bitwise

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536>>                      \* P2[k+1] = 2^k

---------------------------------------------------------------------------
(* 32-bit words *)
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Not32(a)    == <<65535 - a[1], 65535 - a[2]>>
Add32(a, b) == LET s == a[1] + b[1]
               IN  <<s % 65536, (a[2] + b[2] + (s \div 65536)) % 65536>>

\* rotate right by k, 0 < k < 16, then by 16 + k
Rotr32(a, k) ==
  IF k < 16
  THEN LET p == P2[k+1] q == P2[17-k]
       IN  <<(a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q>>
  ELSE LET p == P2[k-15] q == P2[33-k]
       IN  <<(a[2] \div p) + (a[1] % p) * q, (a[1] \div p) + (a[2] % p) * q>>
Rotl32(a, k) == Rotr32(a, 32 - k)
\* shift right by k
Shr32(a, k) ==
  IF k < 16
  THEN LET p == P2[k+1] IN <<(a[1] \div p) + (a[2] % p) * P2[17-k], a[2] \div p>>
  ELSE <<a[2] \div P2[k-15], 0>>

---------------------------------------------------------------------------
(* 64-bit words *)
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Not64(a)    == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Add64(a, b) == LET s1 == a[1] + b[1]
                   s2 == a[2] + b[2] + (s1 \div 65536)
                   s3 == a[3] + b[3] + (s2 \div 65536)
               IN  <<s1 % 65536, s2 % 65536, s3 % 65536,
                     (a[4] + b[4] + (s3 \div 65536)) % 65536>>
\* rotate right by j limbs and r bits (k = 16*j + r)
Rotr64(a, k) ==
  LET j == k \div 16  r == k % 16  p == P2[r+1]  q == P2[17-r]
      x == a[(j % 4) + 1]        y == a[((j+1) % 4) + 1]
      z == a[((j+2) % 4) + 1]    w == a[((j+3) % 4) + 1]
  IN  IF r = 0 THEN <<x, y, z, w>>
      ELSE <<(x \div p) + (y % p) * q, (y \div p) + (z % p) * q,
             (z \div p) + (w % p) * q, (w \div p) + (x % p) * q>>
Rotl64(a, k) == Rotr64(a, (64 - k) % 64)
Shr64(a, k) ==
  LET j == k \div 16  r == k % 16  p == P2[r+1]  q == P2[17-r]
      L(i) == IF i > 4 THEN 0 ELSE a[i]
      S(i) == (L(i+j) \div p) + (IF r = 0 THEN 0 ELSE (L(i+j+1) % p) * q)
  IN  <<S(1), S(2), S(3), S(4)>>
=============================================================================
