----------------------------- MODULE SpongeImpl -----------------------------
(* The Keccak sponge as it is built (include/cthash/sha3/common.hpp): a     *)
(* state that input is XORed into at a position, by words with an unaligned *)
(* prefix and suffix (constant evaluation) or byte by byte (run time), the  *)
(* padding XORed in, and output read word by word with another permutation  *)
(* when the rate is used up.  Symbolic: a byte of the state is the set of   *)
(* things XORed into it (XOR = symmetric difference) since the last         *)
(* permutation; the permutation keeps what it was given and starts afresh.  *)
(*                                                                          *)
(* Refinement: what the permutations were given is the FIPS 202 sponge on   *)
(* the padded message, however it was cut and by either path, and the       *)
(* output bytes are the first bytes of its output.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS R, W,        \* rate and word, in bytes; W divides R
          MaxPiece, MaxTotal, MaxOut, Bug
VARIABLES n, given, state, pos, phase, out, want
vars == <<n, given, state, pos, phase, out, want>>
Empty == [i \in 1..R |-> {}]
Init == n = 0 /\ given = <<>> /\ state = Empty /\ pos = 0 /\ phase = "absorb" /\ out = <<>> /\ want = 0

Xor(a, b) == (a \ b) \cup (b \ a)
Min(a, b) == IF a < b THEN a ELSE b
\* bytes first.. XORed in from position p on (run-time path)
Bytes(st, p, first, k) == [i \in 1..R |-> IF i > p /\ i <= p + k THEN Xor(st[i], {first + (i - p - 1)}) ELSE st[i]]
\* constant evaluation: unaligned prefix, whole words, unaligned suffix
RECURSIVE Words(_, _, _, _)
Words(st, p, first, k) ==
  IF k = 0 THEN st
  ELSE LET off == p % W
           c == IF off # 0 THEN Min(k, W - off) ELSE IF k >= W THEN W ELSE k
           lane == p \div W
           at == IF Bug = "prefix-at-lane-start" /\ off # 0 THEN 0 ELSE off
           st2 == [i \in 1..R |-> IF (i - 1) \div W = lane /\ (i - 1) % W >= at /\ (i - 1) % W < at + c
                                  THEN Xor(st[i], {first + ((i - 1) % W) - at}) ELSE st[i]]
       IN  Words(st2, p + c, first + c, k - c)
Absorbed(ct, st, p, first, k) == IF ct THEN Words(st, p, first, k) ELSE Bytes(st, p, first, k)

RECURSIVE Blocks(_, _, _, _)
\* whole rates straight from the input: <<given, next, left>>
Blocks(ct, g, first, k) == IF k >= R THEN Blocks(ct, Append(g, Absorbed(ct, Empty, 0, first, R)), first + R, k - R) ELSE <<g, first, k>>

Update(k, ct) ==
  /\ phase = "absorb" /\ n + k <= MaxTotal /\ n' = n + k /\ UNCHANGED <<phase, out, want>>
  /\ LET room == R - pos
         first == n + 1
     IN  IF (IF Bug = "full-not-permuted" THEN room >= k ELSE room > k)
         THEN state' = Absorbed(ct, state, pos, first, k) /\ pos' = pos + k /\ given' = given
         ELSE LET g == Append(given, Absorbed(ct, state, pos, first, room))
                  w == Blocks(ct, g, first + room, k - room)
              IN  /\ given' = w[1]
                  /\ state' = Absorbed(ct, Empty, 0, w[2], w[3])
                  /\ pos' = w[3]
Suffix == -1
Last == -2
Final(z) ==
  /\ phase = "absorb" /\ phase' = "squeeze" /\ want' = z /\ UNCHANGED <<n, pos, out>>
  /\ LET a == [state EXCEPT ![Min(pos, R - 1) + 1] = Xor(@, {Suffix})]
         b == [a EXCEPT ![R] = IF Bug = "last-overwrites" THEN {Last} ELSE Xor(@, {Last})]
     IN  given' = Append(given, b)
  /\ state' = Empty
\* output is read from the state after Len(given) permutations: byte i of it is <<Len(given), i>>
RECURSIVE Squeezed(_, _, _, _)
\* (permutations so far, words left of this rate, bytes left, output)
Squeezed(g, r, z, o) ==
  IF z = 0 THEN <<g, o>>
  ELSE IF r = 0 THEN IF Bug = "squeeze-without-permutation" THEN Squeezed(g, R \div W, z, o) ELSE Squeezed(g + 1, R \div W, z, o)
  ELSE LET at == (R \div W - r) * W
           c == IF z >= W THEN W ELSE z
       IN  Squeezed(g, r - 1, z - c, o \o [i \in 1..c |-> <<g, at + i>>])
Squeeze ==
  /\ phase = "squeeze" /\ phase' = "done" /\ UNCHANGED <<n, state, pos, want>>
  /\ LET q == Squeezed(Len(given), R \div W, want, <<>>)
     IN  out' = q[2] /\ given' = given \o [i \in 1..(q[1] - Len(given)) |-> Empty]
Next == (\E k \in 0..MaxPiece, ct \in BOOLEAN : Update(k, ct)) \/ (\E z \in 0..MaxOut : Final(z)) \/ Squeeze
        \/ (phase = "done" /\ UNCHANGED vars)

\* FIPS 202: the message, the suffix with the first padding bit, zeros, the last padding bit, in blocks of the rate
Padded(m) == LET len == (m \div R + 1) * R
             IN  [i \in 1..len |-> Xor(Xor(IF i <= m THEN {i} ELSE {}, IF i = m + 1 THEN {Suffix} ELSE {}), IF i = len THEN {Last} ELSE {})]
Cut(s) == [i \in 1..(Len(s) \div R) |-> SubSeq(s, (i - 1) * R + 1, i * R)]
IsMessage == phase = "absorb" => /\ pos = n % R /\ Len(given) = n \div R
                                 /\ \A i \in 1..Len(given) : given[i] = [j \in 1..R |-> {(i - 1) * R + j}]
                                 /\ state = [j \in 1..R |-> IF j <= pos THEN {n - pos + j} ELSE {}]
IsSponge == phase # "absorb" => SubSeq(given, 1, n \div R + 1) = Cut(Padded(n))
IsOutput == phase = "done" => out = [i \in 1..want |-> <<n \div R + 1 + ((i - 1) \div R), ((i - 1) % R) + 1>>]
=============================================================================
