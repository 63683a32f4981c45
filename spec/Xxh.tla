-------------------------------- MODULE Xxh --------------------------------
(* The xxHash specification (XXH32 and XXH64), executable.                  *)
(* 32-bit words have two 16-bit limbs and 64-bit words four (Words.tla).    *)
EXTENDS Words, SequencesExt

---------------------------------------------------------------------------
(* multiplication modulo 2^32 / 2^64.  The second operand is split into     *)
(* bytes so that every partial product and sum fits TLC's 32-bit integers.  *)
Mul32(a, b) ==
  LET b0 == b[1] % 256   b1 == b[1] \div 256
      b2 == b[2] % 256   b3 == b[2] \div 256
      p0 == a[1] * b0                          \* weight 2^0
      p1 == a[1] * b1                          \* weight 2^8
      lo == p0 + (p1 % 256) * 256
      \* weight 2^16: a1*b2, a2*b0; weight 2^24: a1*b3, a2*b1
  IN  <<lo % 65536,
        ((lo \div 65536) + (p1 \div 256)
          + ((a[1] * b2) % 65536) + (((a[1] * b3) % 256) * 256)
          + ((a[2] * b0) % 65536) + (((a[2] * b1) % 256) * 256)) % 65536>>

\* 16x16 -> <<lo, hi>> limbs of the 32-bit product
LOCAL M16(x, y) ==
  LET p0 == x * (y % 256)  p1 == x * (y \div 256)
      lo == p0 + (p1 % 256) * 256
  IN  <<lo % 65536, (lo \div 65536) + (p1 \div 256)>>

Mul64(a, b) ==
  LET m11 == M16(a[1], b[1])
      m12 == M16(a[1], b[2])  m21 == M16(a[2], b[1])
      m13 == M16(a[1], b[3])  m22 == M16(a[2], b[2])  m31 == M16(a[3], b[1])
      m14 == M16(a[1], b[4])  m23 == M16(a[2], b[3])  m32 == M16(a[3], b[2])  m41 == M16(a[4], b[1])
      s2 == m11[2] + m12[1] + m21[1]
      s3 == (s2 \div 65536) + m12[2] + m21[2] + m13[1] + m22[1] + m31[1]
      s4 == (s3 \div 65536) + m13[2] + m22[2] + m31[2] + m14[1] + m23[1] + m32[1] + m41[1]
  IN  <<m11[1], s2 % 65536, s3 % 65536, s4 % 65536>>

---------------------------------------------------------------------------
Zero32 == <<0, 0>>
Zero64 == <<0, 0, 0, 0>>
LOCAL Sub32(a, b) == Add32(a, Add32(Not32(b), <<1, 0>>))
LOCAL Sub64(a, b) == Add64(a, Add64(Not64(b), <<1, 0, 0, 0>>))

\* 2654435761 2246822519 3266489917 668265263 374761393
\* = 0x9E3779B1 0x85EBCA77 0xC2B2AE3D 0x27D4EB2F 0x165667B1
P32 == <<<<31153, 40503>>, <<51831, 34283>>, <<44605, 49842>>, <<60207, 10196>>, <<26545, 5718>>>>
\* 0x9E3779B185EBCA87 0xC2B2AE3D27D4EB4F 0x165667B19E3779F9 0x85EBCA77C2B2AE63 0x27D4EB2F165667C5
P64 == <<<<51847, 34283, 31153, 40503>>, <<60239, 10196, 44605, 49842>>,
         <<31225, 40503, 26545, 5718>>, <<44643, 49842, 51831, 34283>>,
         <<26565, 5718, 60207, 10196>>>>

LE32(b, o) == <<b[o+1] + 256 * b[o+2], b[o+3] + 256 * b[o+4]>>
LE64(b, o) == <<b[o+1] + 256 * b[o+2], b[o+3] + 256 * b[o+4],
                b[o+5] + 256 * b[o+6], b[o+7] + 256 * b[o+8]>>

---------------------------------------------------------------------------
(* XXH32 *)
Init32(seed) == <<Add32(Add32(seed, P32[1]), P32[2]), Add32(seed, P32[2]), seed, Sub32(seed, P32[1])>>
Round32(acc, lane) == Mul32(Rotl32(Add32(acc, Mul32(lane, P32[2])), 13), P32[1])
Stripe32(acc, b) == [i \in 1..4 |-> Round32(acc[i], LE32(b, 4 * (i-1)))]
Converge32(acc) == Add32(Add32(Rotl32(acc[1], 1), Rotl32(acc[2], 7)),
                         Add32(Rotl32(acc[3], 12), Rotl32(acc[4], 18)))
RECURSIVE Tail32(_, _, _)
Tail32(h, b, o) ==         \* consume b from (0-based) offset o
  IF o + 4 <= Len(b)
  THEN Tail32(Mul32(Rotl32(Add32(h, Mul32(LE32(b, o), P32[3])), 17), P32[4]), b, o + 4)
  ELSE IF o < Len(b)
  THEN Tail32(Mul32(Rotl32(Add32(h, Mul32(<<b[o+1], 0>>, P32[5])), 11), P32[1]), b, o + 1)
  ELSE h
Avalanche32(h) ==
  LET a == Mul32(Xor32(h, Shr32(h, 15)), P32[2])
      b == Mul32(Xor32(a, Shr32(a, 13)), P32[3])
  IN  Xor32(b, Shr32(b, 16))
\* total = message length as a 64-bit word, tail = the last (total mod 16) bytes
Finish32(acc, seed, total, tail) ==
  LET long == total[1] >= 16 \/ total[2] > 0 \/ total[3] > 0 \/ total[4] > 0
      h0   == IF long THEN Converge32(acc) ELSE Add32(seed, P32[5])
      h1   == Add32(h0, <<total[1], total[2]>>)
      r    == Avalanche32(Tail32(h1, tail, 0))
  IN  <<r[2] \div 256, r[2] % 256, r[1] \div 256, r[1] % 256>>

---------------------------------------------------------------------------
(* XXH64 *)
Init64(seed) == <<Add64(Add64(seed, P64[1]), P64[2]), Add64(seed, P64[2]), seed, Sub64(seed, P64[1])>>
Round64(acc, lane) == Mul64(Rotl64(Add64(acc, Mul64(lane, P64[2])), 31), P64[1])
Stripe64(acc, b) == [i \in 1..4 |-> Round64(acc[i], LE64(b, 8 * (i-1)))]
LOCAL Merge64(h, a) == Add64(Mul64(Xor64(h, Round64(Zero64, a)), P64[1]), P64[4])
Converge64(acc) ==
  LET h == Add64(Add64(Rotl64(acc[1], 1), Rotl64(acc[2], 7)),
                 Add64(Rotl64(acc[3], 12), Rotl64(acc[4], 18)))
  IN  Merge64(Merge64(Merge64(Merge64(h, acc[1]), acc[2]), acc[3]), acc[4])
RECURSIVE Tail64(_, _, _)
Tail64(h, b, o) ==
  IF o + 8 <= Len(b)
  THEN Tail64(Add64(Mul64(Rotl64(Xor64(h, Round64(Zero64, LE64(b, o))), 27), P64[1]), P64[4]), b, o + 8)
  ELSE IF o + 4 <= Len(b)
  THEN Tail64(Add64(Mul64(Rotl64(Xor64(h, Mul64(<<LE32(b, o)[1], LE32(b, o)[2], 0, 0>>, P64[1])), 23), P64[2]), P64[3]), b, o + 4)
  ELSE IF o < Len(b)
  THEN Tail64(Mul64(Rotl64(Xor64(h, Mul64(<<b[o+1], 0, 0, 0>>, P64[5])), 11), P64[1]), b, o + 1)
  ELSE h
Avalanche64(h) ==
  LET a == Mul64(Xor64(h, Shr64(h, 33)), P64[2])
      b == Mul64(Xor64(a, Shr64(a, 29)), P64[3])
  IN  Xor64(b, Shr64(b, 32))
Finish64(acc, seed, total, tail) ==
  LET long == total[1] >= 32 \/ total[2] > 0 \/ total[3] > 0 \/ total[4] > 0
      h0   == IF long THEN Converge64(acc) ELSE Add64(seed, P64[5])
      r    == Avalanche64(Tail64(Add64(h0, total), tail, 0))
  IN  <<r[4] \div 256, r[4] % 256, r[3] \div 256, r[3] % 256,
        r[2] \div 256, r[2] % 256, r[1] \div 256, r[1] % 256>>
=============================================================================
