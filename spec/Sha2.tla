-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4, executable: compression functions, padding, initial values.  *)
(* A message is a sequence of bytes (0..255).  A chaining value is a        *)
(* sequence of 8 words (Words.tla).                                         *)
EXTENDS Words, SequencesExt, Sha2Const

LOCAL Zeros(n) == [i \in 1..n |-> 0]

---------------------------------------------------------------------------
(* SHA-224 / SHA-256 *)
LOCAL BSig0_32(x) == Xor32(Xor32(Rotr32(x, 2), Rotr32(x, 13)), Rotr32(x, 22))
LOCAL BSig1_32(x) == Xor32(Xor32(Rotr32(x, 6), Rotr32(x, 11)), Rotr32(x, 25))
LOCAL SSig0_32(x) == Xor32(Xor32(Rotr32(x, 7), Rotr32(x, 18)), Shr32(x, 3))
LOCAL SSig1_32(x) == Xor32(Xor32(Rotr32(x, 17), Rotr32(x, 19)), Shr32(x, 10))
LOCAL Ch32(e, f, g) == Xor32(And32(e, f), And32(Not32(e), g))
LOCAL Maj32(a, b, c) == Xor32(Xor32(And32(a, b), And32(a, c)), And32(b, c))

\* big-endian bytes b[o+1..o+4] -> word
LOCAL BE32(b, o) == <<b[o+3] * 256 + b[o+4], b[o+1] * 256 + b[o+2]>>

LOCAL Idx16_63 == [i \in 1..48 |-> i + 16]
LOCAL Idx0_63  == [i \in 1..64 |-> i]
LOCAL Idx16_79 == [i \in 1..64 |-> i + 16]
LOCAL Idx0_79  == [i \in 1..80 |-> i]

LOCAL Schedule32(b) ==
  FoldLeft(LAMBDA w, t : Append(w, Add32(Add32(SSig1_32(w[t-2]), w[t-7]),
                                         Add32(SSig0_32(w[t-15]), w[t-16]))),
           [i \in 1..16 |-> BE32(b, 4*(i-1))], Idx16_63)

LOCAL Step32(s, k, w) ==
  LET t1 == Add32(Add32(Add32(s[8], BSig1_32(s[5])), Ch32(s[5], s[6], s[7])), Add32(k, w))
      t2 == Add32(BSig0_32(s[1]), Maj32(s[1], s[2], s[3]))
  IN  <<Add32(t1, t2), s[1], s[2], s[3], Add32(s[4], t1), s[5], s[6], s[7]>>

\* one application of the SHA-256 compression function to a 64-byte block
Compress32(h, b) ==
  LET w == Schedule32(b)
      r == FoldLeft(LAMBDA s, t : Step32(s, K32[t], w[t]), h, Idx0_63)
  IN  [i \in 1..8 |-> Add32(h[i], r[i])]

---------------------------------------------------------------------------
(* SHA-384 / SHA-512 / SHA-512/t *)
LOCAL BSig0_64(x) == Xor64(Xor64(Rotr64(x, 28), Rotr64(x, 34)), Rotr64(x, 39))
LOCAL BSig1_64(x) == Xor64(Xor64(Rotr64(x, 14), Rotr64(x, 18)), Rotr64(x, 41))
LOCAL SSig0_64(x) == Xor64(Xor64(Rotr64(x, 1), Rotr64(x, 8)), Shr64(x, 7))
LOCAL SSig1_64(x) == Xor64(Xor64(Rotr64(x, 19), Rotr64(x, 61)), Shr64(x, 6))
LOCAL Ch64(e, f, g) == Xor64(And64(e, f), And64(Not64(e), g))
LOCAL Maj64(a, b, c) == Xor64(Xor64(And64(a, b), And64(a, c)), And64(b, c))

LOCAL BE64(b, o) == <<b[o+7] * 256 + b[o+8], b[o+5] * 256 + b[o+6],
                      b[o+3] * 256 + b[o+4], b[o+1] * 256 + b[o+2]>>

LOCAL Schedule64(b) ==
  FoldLeft(LAMBDA w, t : Append(w, Add64(Add64(SSig1_64(w[t-2]), w[t-7]),
                                         Add64(SSig0_64(w[t-15]), w[t-16]))),
           [i \in 1..16 |-> BE64(b, 8*(i-1))], Idx16_79)

LOCAL Step64(s, k, w) ==
  LET t1 == Add64(Add64(Add64(s[8], BSig1_64(s[5])), Ch64(s[5], s[6], s[7])), Add64(k, w))
      t2 == Add64(BSig0_64(s[1]), Maj64(s[1], s[2], s[3]))
  IN  <<Add64(t1, t2), s[1], s[2], s[3], Add64(s[4], t1), s[5], s[6], s[7]>>

Compress64(h, b) ==
  LET w == Schedule64(b)
      r == FoldLeft(LAMBDA s, t : Step64(s, K64[t], w[t]), h, Idx0_79)
  IN  [i \in 1..8 |-> Add64(h[i], r[i])]

---------------------------------------------------------------------------
(* words -> big-endian bytes *)
LOCAL Bytes32(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
LOCAL Bytes64(w) == <<w[4] \div 256, w[4] % 256, w[3] \div 256, w[3] % 256,
                      w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
OutBytes(h) == FlattenSeq([i \in 1..8 |-> IF Len(h[i]) = 2 THEN Bytes32(h[i]) ELSE Bytes64(h[i])])

Compress(bs, h, b) == IF bs = 64 THEN Compress32(h, b) ELSE Compress64(h, b)
=============================================================================
