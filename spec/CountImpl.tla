----------------------------- MODULE CountImpl -----------------------------
(* The counters of the hashers as they are built, over mathematical         *)
(* integers and at the real widths, for pieces and messages of ANY size:    *)
(* how many bytes are buffered, how many blocks were given to the           *)
(* compression function, what the 64-bit (8-bit for Keccak) counters hold,  *)
(* and what the final step makes of them.  MdImpl, SpongeImpl and XxhImpl   *)
(* say which bytes go where for messages of a few blocks; this module says  *)
(* that the arithmetic is right for all of them.                            *)
(*                                                                          *)
(* TLC's integers have 32 bits, so this module is checked by Apalache: Inv  *)
(* holds initially and is INDUCTIVE (from any state that satisfies it, any  *)
(* piece of any size), hence it holds for histories of every length.  With  *)
(* Bug # "none" Apalache must find a message (from Init, a few pieces) for  *)
(* which the counters are wrong.                                            *)
EXTENDS Integers
CONSTANTS
  \* @type: Str;
  Kind,         \* "sha2", "keccak", "xxh"
  \* @type: Int;
  B,            \* bytes per block, rate or stripe
  \* @type: Int;
  LF,           \* bytes of the length field (sha2), of the digest (xxh)
  \* @type: Str;
  Bug
VARIABLES
  \* @type: Int;
  n,            \* bytes fed so far
  \* @type: Int;
  total,        \* the object's counter of them
  \* @type: Int;
  used,         \* the object's buffered bytes (sha2), position (keccak)
  \* @type: Int;
  given,        \* blocks given to the compression function
  \* @type: Int;
  field,        \* the length the final step uses
  \* @type: Bool;
  short,        \* the final step takes the message for less than a stripe (xxh)
  \* @type: Bool;
  done
Limit == 2^61          \* FIPS 180-4 defines SHA-224/256 below 2^64 bits; one limit for all
W64(x) == x % 2^64
Init == n = 0 /\ total = 0 /\ used = 0 /\ given = 0 /\ field = 0 /\ short = FALSE /\ done = FALSE

Min(a, b) == IF a < b THEN a ELSE b
\* the buffered bytes, as the object knows them
Usage == IF Kind = "xxh" THEN total % B ELSE used

\* @type: (Int) => Bool;
Update(k) ==
  LET c == IF Usage = 0 THEN 0 ELSE Min(k, B - Usage)
      full == Usage # 0 /\ Usage + c = B
      stop == Usage # 0 /\ ~full
      left == IF Bug = "piece-32" THEN (k - c) % 2^32 ELSE k - c
      whole == left \div B
      rest == left % B
      t == IF Bug = "total-32" THEN (total + k) % 2^32
           ELSE IF Bug = "piece-counted-32" THEN W64(total + (k % 2^32))
           ELSE IF Bug = "piece-counted-8" THEN W64(total + (k % 2^8))
           ELSE W64(total + k)
  IN  /\ k >= 0 /\ n + k < Limit
      /\ n' = n + k
      /\ total' = t
      /\ given' = given + (IF full THEN 1 ELSE 0) + (IF stop THEN 0 ELSE IF Bug = "blocks-8" THEN whole % 2^8 ELSE whole)
      /\ used' = IF Kind = "keccak" THEN (IF stop THEN Usage + c ELSE rest) % 2^8     \* uint8_t
                 ELSE IF stop THEN Usage + c ELSE rest
      /\ UNCHANGED <<field, short, done>>

Final ==
  /\ done' = TRUE
  /\ UNCHANGED <<n, total, used>>
  /\ given' = given + (IF Kind = "xxh" THEN 0 ELSE IF Kind = "sha2" /\ B - used < 1 + LF THEN 2 ELSE 1)
  /\ field' = IF Kind = "sha2" THEN (IF Bug = "bits-32" THEN (total * 8) % 2^32 ELSE W64(total * 8))
              ELSE IF Bug = "seen-16" THEN total % 2^16 ELSE total % 2^(8 * LF)
  /\ short' = (Kind = "xxh" /\ (IF Bug = "short-32" THEN (total % 2^32) < B ELSE total < B))
Next == ~done /\ (Final \/ \E k \in Nat : Update(k))

\* every byte is in a block given or in the buffer, and the counter is the truth
Feeding == /\ n >= 0 /\ n < Limit
           /\ used >= 0 /\ used < B /\ given >= 0
           /\ (given * B) + used = n
           /\ total = n
           /\ field = 0 /\ ~short
\* FIPS 180-4, 5.1: the message, one bit in a byte, fewer than a block of zeros, the length; FIPS 202: one byte at least
Finished == /\ n >= 0 /\ n < Limit
            /\ (Kind = "sha2" => LET z == (given * B) - n - 1 - LF IN z >= 0 /\ z < B /\ field = 8 * n)
            /\ (Kind = "keccak" => LET z == (given * B) - n IN z >= 1 /\ z <= B)
            /\ (Kind = "xxh" => field = n % 2^(8 * LF) /\ (short <=> n < B))
Inv == IF done THEN Finished ELSE Feeding
\* any state that satisfies Inv, while there are steps to take
Any == n \in Int /\ total \in Int /\ used \in Int /\ given \in Int /\ field \in Int /\ short \in BOOLEAN /\ done = FALSE /\ Inv
Both == Init \/ Any
=============================================================================
