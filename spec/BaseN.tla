-------------------------------- MODULE BaseN --------------------------------
(* The text encodings, from their definitions (RFC 4648 for base64,         *)
(* base64url, base32, base16; z-base-32; plain power-of-two radices).       *)
(* Texts are sequences of character codes.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

LOCAL Rng(a, n) == [i \in 1..n |-> a + i - 1]
LOCAL Upper == Rng(65, 26)
LOCAL Lower == Rng(97, 26)
LOCAL Digits == Rng(48, 10)
LOCAL ZB == \* "ybndrfg8ejkmcpqxot1uwisza345h769"
  <<121, 98, 110, 100, 114, 102, 103, 56, 101, 106, 107, 109, 99, 112, 113, 120,
    111, 116, 49, 117, 119, 105, 115, 122, 97, 51, 52, 53, 104, 55, 54, 57>>

EncNames == {"base64", "base64_no_padding", "base64url", "base32", "base32_no_padding", "z_base32",
             "base16", "BASE16", "base8", "base4", "base2"}
Alphabet(e) ==
  CASE e \in {"base64", "base64_no_padding"} -> Upper \o Lower \o Digits \o <<43, 47>>      \* + /
    [] e = "base64url" -> Upper \o Lower \o Digits \o <<45, 95>>                            \* - _
    [] e \in {"base32", "base32_no_padding"} -> Upper \o Rng(50, 6)                         \* A-Z 2-7
    [] e = "z_base32" -> ZB
    [] e = "base16" -> Digits \o Rng(97, 6)
    [] e = "BASE16" -> Digits \o Rng(65, 6)
    [] e = "base8" -> Rng(48, 8)
    [] e = "base4" -> Rng(48, 4)
    [] e = "base2" -> Rng(48, 2)
\* bits per character
Width(e) ==
  CASE e \in {"base64", "base64_no_padding", "base64url"} -> 6
    [] e \in {"base32", "base32_no_padding", "z_base32"} -> 5
    [] e \in {"base16", "BASE16"} -> 4
    [] e = "base8" -> 3 [] e = "base4" -> 2 [] e = "base2" -> 1
Padded(e) == e \in {"base64", "base32", "base8"}
PadChar == 61                                                                               \* =

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
CeilDiv(a, b) == (a + b - 1) \div b

P2(k) == 2 ^ k
\* bit j (0 = most significant) of the w-bit value v
BitOf(v, w, j) == (v \div P2(w - 1 - j)) % 2

(* Regrouping: bit k (0-based) of the sequence of w-bit values vs, zero past its end *)
SrcBit(vs, w, k) == IF k >= w * Len(vs) THEN 0 ELSE BitOf(vs[(k \div w) + 1], w, k % w)
\* the i-th (0-based) out-bit group
Group(vs, w, out, i) == FoldLeft(LAMBDA acc, j : (2 * acc) + SrcBit(vs, w, (i * out) + j), 0, [j \in 1..out |-> j - 1])
NGroups(vs, w, out) == CeilDiv(w * Len(vs), out)
\* groups including those that are padding only
NGroupsPadded(vs, w, out) ==
  LET L == Lcm(w, out) IN CeilDiv(w * Len(vs), L) * (L \div out)

(* what a chunk-of-bits view over w-bit elements yields, the elements given  *)
(* as their bytes (most significant first): <<value, number of fill bits in  *)
(* it>>; values too wide for an integer as their bytes                       *)
ChunkValue(bs, out, i) ==
  IF out < 31 THEN Group(bs, 8, out, i)
  ELSE [j \in 1..(out \div 8) |-> Group(bs, 8, 8, (i * (out \div 8)) + j - 1)]
Chunks(bs, w, out, padded) ==
  LET n == 8 * Len(bs)
      L == Lcm(w, out)
  IN  [i \in 1..(IF padded THEN CeilDiv(n, L) * (L \div out) ELSE CeilDiv(n, out)) |->
         LET real == n - ((i - 1) * out)                  \* source bits from this chunk on
         IN  <<ChunkValue(bs, out, i - 1), IF real >= out THEN 0 ELSE IF real <= 0 THEN out ELSE out - real>>]

EncLen(e, n) == IF Padded(e) THEN CeilDiv(8 * n, Lcm(8, Width(e))) * (Lcm(8, Width(e)) \div Width(e))
                ELSE CeilDiv(8 * n, Width(e))
Encode(e, bs) ==
  LET A == Alphabet(e)
      text == [i \in 1..NGroups(bs, 8, Width(e)) |-> A[Group(bs, 8, Width(e), i - 1) + 1]]
  IN  text \o [i \in 1..(EncLen(e, Len(bs)) - Len(text)) |-> PadChar]

\* the bytes a text stands for
IndexOf(A, c) == CHOOSE i \in DOMAIN A : A[i] = c
Decode(e, text) ==
  LET A == Alphabet(e)  w == Width(e)
      body == SelectSeq(text, LAMBDA c : c # PadChar)
      vals == [i \in DOMAIN body |-> IndexOf(A, body[i]) - 1]
      n == (Len(body) * w) \div 8
  IN  [i \in 1..n |-> Group(vals, w, 8, i - 1)]
=============================================================================
