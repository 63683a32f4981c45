------------------------------ MODULE SelfTest ------------------------------
(* Grounds the specification itself, independently of the implementation:   *)
(*  - the constants of FIPS 180-4 are the fractional parts of the square    *)
(*    and cube roots of the first primes;                                   *)
(*  - the unrolled Keccak-f equals its table-driven definition;             *)
(*  - known answers of independent implementations;                         *)
(*  - Feed is a monoid action: feeding u then v is feeding u \o v.          *)
EXTENDS HashAlg, Kat

---------------------------------------------------------------------------
(* natural numbers as byte sequences, least significant first *)
LOCAL At(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
LOCAL MulN(a, b) ==
  LET n == Len(a) + Len(b)
      col(k) == FoldLeft(LAMBDA acc, i : acc + (At(a, i) * At(b, k + 1 - i)), 0, [i \in 1..k |-> i])
  IN  FoldLeft(LAMBDA acc, k : LET v == acc.c + (IF k < n THEN col(k) ELSE 0)
                               IN  [d |-> Append(acc.d, v % 256), c |-> v \div 256],
               [d |-> <<>>, c |-> 0], [k \in 1..n |-> k]).d
LOCAL IncN(a) ==
  FoldLeft(LAMBDA acc, k : LET v == acc.c + a[k] IN [d |-> Append(acc.d, v % 256), c |-> v \div 256],
           [d |-> <<>>, c |-> 1], [k \in 1..Len(a) |-> k]).d
RECURSIVE LessN(_, _, _)          \* a < b looking at the digits up to k
LOCAL LessN(a, b, k) == IF k = 0 THEN FALSE
                  ELSE IF At(a, k) # At(b, k) THEN At(a, k) < At(b, k) ELSE LessN(a, b, k - 1)
LOCAL Lt(a, b) == LET m == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN LessN(a, b, m)
LOCAL IsPrime(p) == p > 1 /\ \A d \in 2..(p - 1) : p % d # 0
Primes == SetToSortSeq({p \in 2..409 : IsPrime(p)}, <)

LOCAL LimbBytes(w) == FlattenSeq([i \in 1..Len(w) |-> <<w[i] % 256, w[i] \div 256>>])
LOCAL Zs(n) == [i \in 1..n |-> 0]
\* w (little-endian limbs) is the fractional part of the e-th root of p
LOCAL IsRootFrac(w, p, e) ==
  LET f == LimbBytes(w)
      ip == CHOOSE r \in 0..25 : IF e = 2 THEN r * r <= p /\ p < (r + 1) * (r + 1)
                                 ELSE r * r * r <= p /\ p < (r + 1) * (r + 1) * (r + 1)
      x == f \o <<ip, 0>>
      y == IncN(x)
      pow(z) == IF e = 2 THEN MulN(z, z) ELSE MulN(MulN(z, z), z)
      target == Zs(e * Len(f)) \o <<p % 256, p \div 256>>
  IN  ~ Lt(target, pow(x)) /\ Lt(target, pow(y))

ConstantsOK(i) ==     \* i in 1..80
  /\ Len(Primes) = 80
  /\ i <= 64 => IsRootFrac(K32[i], Primes[i], 3)
  /\ IsRootFrac(K64[i], Primes[i], 3)
  /\ i <= 8 => /\ IsRootFrac(IV256[i], Primes[i], 2)
               /\ IsRootFrac(IV512[i], Primes[i], 2)
               /\ IsRootFrac(IV384[i], Primes[i + 8], 2)
               \* SHA-224: the second 32 bits of the fractional parts for the 9th..16th primes
               /\ IV224[i] = SubSeq(IV384[i], 1, 2)

---------------------------------------------------------------------------
Msg(n) == [i \in 1..n |-> (7 * (i - 1) + 1) % 256]
KatOK(i) == LET k == Kats[i] IN HashOf(<<k[1], k[2]>>, Msg(k[3]), Len(k[4])) = k[4]
XxKatOK(i) == LET k == XxKats[i]
              IN  HashOf(<<k[1], IF k[1] = "xxh32" THEN <<0, 0>> ELSE <<0, 0, 0, 0>>>>, k[2], 0) = k[3]

Algs == <<<<"sha256", 0>>, <<"sha512t", 504>>, <<"sha3_224", 0>>, <<"shake128", 0>>,
          <<"xxh32", <<1, 2>>>>, <<"xxh64", <<1, 2, 3, 65535>>>>>>
SplitsOK(i) ==
  \A n \in {0, 1, 65, 200, 300} : \A j \in {0, 1, 63, 64, 128, 200} :
     j <= n => Feed(Feed(New(Algs[i]), SubSeq(Msg(n), 1, j)), SubSeq(Msg(n), j + 1, n)) = Feed(New(Algs[i]), Msg(n))

---------------------------------------------------------------------------
VARIABLE test
Tests == ({"const"} \X (1..80)) \cup ({"kat"} \X DOMAIN Kats) \cup ({"xx"} \X DOMAIN XxKats)
         \cup ({"split"} \X DOMAIN Algs) \cup {<<"keccak", 1>>}
Init == test \in Tests
Next == UNCHANGED test
Passes ==
  CASE test[1] = "const" -> ConstantsOK(test[2])
    [] test[1] = "kat" -> KatOK(test[2])
    [] test[1] = "xx" -> XxKatOK(test[2])
    [] test[1] = "split" -> SplitsOK(test[2])
    [] test[1] = "keccak" -> KeccakTables
=============================================================================
