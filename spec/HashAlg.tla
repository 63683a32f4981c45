------------------------------ MODULE HashAlg ------------------------------
(* Uniform interface to the hash functions of the library, straight from    *)
(* the standards: FIPS 180-4 (SHA-2, SHA-512/t), FIPS 202 (SHA-3, SHAKE)    *)
(* and the xxHash specification.                                            *)
(*                                                                          *)
(* An algorithm is <<name, param>>; param is t for "sha512t", the seed (a   *)
(* word) for "xxh32" / "xxh64" and 0 otherwise.                             *)
(*                                                                          *)
(* A context abstracts a message m that has been fed so far:                *)
(*     [alg, st, tail, tot]                                                 *)
(* st is the chaining value after the whole blocks of m, tail the bytes of  *)
(* m after them and tot the length of m as a 64-bit word.  The context is a *)
(* function of m alone (see HashOf), never of how m was cut into pieces.    *)
EXTENDS Sha2, Keccak, TLC
X == INSTANCE Xxh

Sha2Small == {"sha224", "sha256"}
Sha2Big   == {"sha384", "sha512", "sha512t"}
Sha3Fixed == {"sha3_224", "sha3_256", "sha3_384", "sha3_512"}
Shake     == {"shake128", "shake256"}
Xx        == {"xxh32", "xxh64"}
AlgNames  == Sha2Small \cup Sha2Big \cup Sha3Fixed \cup Shake \cup Xx

\* bytes absorbed per application of the compression function / permutation
BlockSize(a) ==
  CASE a[1] \in Sha2Small -> 64
    [] a[1] \in Sha2Big   -> 128
    [] a[1] = "sha3_224"  -> 144
    [] a[1] = "sha3_256"  -> 136
    [] a[1] = "sha3_384"  -> 104
    [] a[1] = "sha3_512"  -> 72
    [] a[1] = "shake128"  -> 168
    [] a[1] = "shake256"  -> 136
    [] a[1] = "xxh32"     -> 16
    [] a[1] = "xxh64"     -> 32

\* digest length in bytes; 0 = chosen by the caller
DigestLen(a) ==
  CASE a[1] = "sha224" -> 28 [] a[1] = "sha256" -> 32
    [] a[1] = "sha384" -> 48 [] a[1] = "sha512" -> 64
    [] a[1] = "sha512t" -> a[2] \div 8
    [] a[1] = "sha3_224" -> 28 [] a[1] = "sha3_256" -> 32
    [] a[1] = "sha3_384" -> 48 [] a[1] = "sha3_512" -> 64
    [] a[1] \in Shake -> 0
    [] a[1] = "xxh32" -> 4 [] a[1] = "xxh64" -> 8

\* n < 2^31 as a 64-bit word
W64(n) == <<n % 65536, n \div 65536, 0, 0>>
\* 8*w as a 128-bit quantity of 8 limbs
LOCAL Times8(w) ==
  LET c(i) == IF i = 0 \/ i > 5 THEN 0 ELSE (w[i] * 8) \div 65536
      l(i) == IF i > 4 THEN 0 ELSE (w[i] * 8) % 65536
  IN  [i \in 1..8 |-> l(i) + (IF i <= 5 THEN c(i-1) ELSE 0)]
\* limbs (least significant first) -> big-endian bytes
LOCAL BEBytes(ls) == FlattenSeq([i \in 1..Len(ls) |->
                        <<ls[Len(ls)+1-i] \div 256, ls[Len(ls)+1-i] % 256>>])
LOCAL Z(n) == [i \in 1..n |-> 0]

\* FIPS 180-4 section 5.1: 1 bit, zeros, length
PadSha2(bs, tailLen, tot) ==
  LET lenBytes == IF bs = 64 THEN 8 ELSE 16
      zeros == (2 * bs - tailLen - 1 - lenBytes) % bs
      bits == Times8(tot)
  IN  <<128>> \o Z(zeros) \o BEBytes(SubSeq(bits, 1, lenBytes \div 2))

\* absorb block number i (1-based) of data
LOCAL Block(data, bs, i) == SubSeq(data, (i-1) * bs + 1, i * bs)
LOCAL Idx(n) == [i \in 1..n |-> i]
AbsorbBlock(a, st, b) ==
  IF a[1] \in Sha2Small THEN Compress32(st, b)
  ELSE IF a[1] \in Sha2Big THEN Compress64(st, b)
  ELSE IF a[1] = "xxh32" THEN X!Stripe32(st, b)
  ELSE IF a[1] = "xxh64" THEN X!Stripe64(st, b)
  ELSE KeccakF(XorBytes(st, 0, b))
AbsorbBlocks(a, st, data) ==
  LET bs == BlockSize(a)
  IN  FoldLeft(LAMBDA s, i : AbsorbBlock(a, s, Block(data, bs, i)), st, Idx(Len(data) \div bs))

(* FIPS 180-4 section 5.3.6: IV generation for SHA-512/t.  The string is    *)
(* "SHA-512/t" with t in decimal, without leading zeros.                    *)
LOCAL Dec(t) == IF t < 10 THEN <<48 + t>>
                ELSE IF t < 100 THEN <<48 + (t \div 10), 48 + (t % 10)>>
                ELSE <<48 + (t \div 100), 48 + ((t \div 10) % 10), 48 + (t % 10)>>
LOCAL A5 == <<42405, 42405, 42405, 42405>>       \* 0xa5a5a5a5a5a5a5a5
Sha512tIV(t) ==
  LET m == <<83, 72, 65, 45, 53, 49, 50, 47>> \o Dec(t)
      iv == [i \in 1..8 |-> Xor64(IV512[i], A5)]
  IN  Compress64(iv, m \o PadSha2(128, Len(m), W64(Len(m))))

InitState(a) ==
  CASE a[1] = "sha224" -> IV224 [] a[1] = "sha256" -> IV256
    [] a[1] = "sha384" -> IV384 [] a[1] = "sha512" -> IV512
    [] a[1] = "sha512t" -> Sha512tIV(a[2])
    [] a[1] \in Sha3Fixed \cup Shake -> ZeroState
    [] a[1] = "xxh32" -> X!Init32(a[2])
    [] a[1] = "xxh64" -> X!Init64(a[2])

New(a) == [alg |-> a, st |-> InitState(a), tail |-> <<>>, tot |-> W64(0)]

\* the message is extended by the bytes bs
Feed(c, bs) ==
  LET data == c.tail \o bs
      B == BlockSize(c.alg)
      k == Len(data) \div B
  IN  IF k = 0 THEN [c EXCEPT !.tail = data, !.tot = Add64(@, W64(Len(bs)))]
      ELSE [c EXCEPT !.st = AbsorbBlocks(c.alg, @, SubSeq(data, 1, k * B)),
                     !.tail = SubSeq(data, k * B + 1, Len(data)),
                     !.tot = Add64(@, W64(Len(bs)))]

LOCAL Suffix(a) == IF a[1] \in Shake THEN 31 ELSE 6      \* 1111|1.. and 01|1..
LOCAL PadSponge(a, st, tail) ==
  XorByte(XorByte(XorBytes(st, 0, tail), Len(tail), Suffix(a)), BlockSize(a) - 1, 128)

\* squeeze n bytes
LOCAL Squeeze(a, s0, n) ==
  LET r == BlockSize(a)
      k == (n + r - 1) \div r             \* number of output blocks
      sts == FoldLeft(LAMBDA acc, i : TLCEval(Append(acc, IF i = 1 THEN s0 ELSE KeccakF(acc[i-1]))),
                      <<>>, Idx(k))
  IN  SubSeq(FlattenSeq(TLCEval([i \in 1..k |-> StateBytes(sts[i], r)])), 1, n)

\* the digest of the message in context c; n bytes for the extendable ones
Digest(c, n) ==
  LET a == c.alg IN
  IF a[1] \in Sha2Small \cup Sha2Big
  THEN SubSeq(OutBytes(AbsorbBlocks(a, c.st, c.tail \o PadSha2(BlockSize(a), Len(c.tail), c.tot))),
              1, DigestLen(a))
  ELSE IF a[1] = "xxh32" THEN X!Finish32(c.st, a[2], c.tot, c.tail)
  ELSE IF a[1] = "xxh64" THEN X!Finish64(c.st, a[2], c.tot, c.tail)
  ELSE IF a[1] \in Sha3Fixed
  THEN SubSeq(Squeeze(a, KeccakF(PadSponge(a, c.st, c.tail)), DigestLen(a)), 1, DigestLen(a))
  ELSE Squeeze(a, KeccakF(PadSponge(a, c.st, c.tail)), n)

\* the digest of a whole message: the function the library promises
HashOf(a, msg, n) == Digest(Feed(New(a), msg), n)
=============================================================================
