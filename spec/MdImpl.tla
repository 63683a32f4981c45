------------------------------- MODULE MdImpl -------------------------------
(* The SHA-2 hasher as it is built (include/cthash/hasher.hpp): a block     *)
(* buffer, a count of buffered bytes, a total, three phases per update and  *)
(* a padding step that may need one more block.  Bytes are symbolic: the    *)
(* i-th byte of the message is the number i, so the machine covers every    *)
(* content.  The compression function is kept as the sequence of blocks it  *)
(* was given.                                                               *)
(*                                                                          *)
(* Refinement: at every point the blocks given to the compression function  *)
(* and the buffered bytes are the message so far (HashApi's object), and    *)
(* the final sequence of blocks is the padding of FIPS 180-4, 5.1.          *)
(*                                                                          *)
(* Bug selects a deliberately wrong variant; TLC must reject each of them   *)
(* (the invariants have teeth) and accept "none".                           *)
EXTENDS Integers, Sequences
CONSTANTS B,           \* bytes per block
          L,           \* bytes of the length field
          MaxPiece, MaxTotal, Bug
VARIABLES n,           \* bytes fed so far (the message is 1, 2, ..., n)
          blocks, total, buf, used, done
vars == <<n, blocks, total, buf, used, done>>

Junk == -1000
Init == n = 0 /\ blocks = <<>> /\ total = 0 /\ buf = [i \in 1..B |-> Junk] /\ used = 0 /\ done = FALSE

Min(a, b) == IF a < b THEN a ELSE b
\* buf with the k bytes first, first+1, ... written from index at (0-based)
Written(bf, at, first, k) == [i \in 1..B |-> IF i > at /\ i <= at + k THEN first + (i - at - 1) ELSE bf[i]]

RECURSIVE Whole(_, _, _)
\* phase 2: whole blocks straight from the input
Whole(bs, first, k) == IF k >= B THEN Whole(Append(bs, [i \in 1..B |-> first + i - 1]), first + B, k - B) ELSE <<bs, first, k>>

Update(k) ==
  /\ ~done /\ k \in 0..MaxPiece /\ n + k <= MaxTotal
  /\ n' = n + k /\ done' = FALSE
  /\ LET first == n + 1
         c == IF used = 0 THEN 0 ELSE Min(k, B - used)            \* phase 1: fill the buffer
         b1 == Written(buf, used, first, c)
         full == used # 0 /\ used + c = B
         stop == used # 0 /\ ~full
         bs1 == IF full THEN Append(blocks, b1) ELSE blocks
         w == Whole(bs1, first + c, k - c)
         r == w[3]                                                 \* phase 3: keep the rest
     IN  IF stop
         THEN /\ buf' = b1 /\ used' = used + c /\ total' = total + c /\ blocks' = blocks
         ELSE /\ blocks' = w[1]
              /\ buf' = Written(b1, IF Bug = "rest-not-at-start" /\ full THEN used ELSE 0, w[2], r)
              /\ used' = IF Bug = "used-kept" /\ r = 0 THEN used ELSE r
              /\ total' = total + (IF Bug = "fill-not-counted" /\ full THEN k - c ELSE k)

LenField(t) == [j \in 1..L |-> -(100 * (j + 1) + t)]
Final ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, total, used>>
  /\ LET p == [i \in 1..B |-> IF i <= used THEN buf[i] ELSE IF i = used + 1 THEN -1 ELSE IF Bug = "stale-tail" THEN buf[i] ELSE 0]
         more == B - used < 1 + (IF Bug = "length-one-short" THEN L - 1 ELSE L)
         bs == IF more THEN Append(blocks, p) ELSE blocks
         q == IF more THEN (IF Bug = "second-not-cleared" THEN p ELSE [i \in 1..B |-> 0]) ELSE p
         last == [i \in 1..B |-> IF i > B - L THEN LenField(total)[i - (B - L)] ELSE q[i]]
     IN  blocks' = Append(bs, last) /\ buf' = last
Next == Final \/ (\E k \in 0..MaxPiece : Update(k)) \/ (done /\ UNCHANGED vars)

\* FIPS 180-4, 5.1: the bit 1, the fewest zeros, the length
Pad(m) == LET z == CHOOSE z \in 0..(2 * B) : ((m + 1 + z + L) % B = 0) /\ \A y \in 0..(z - 1) : ((m + 1 + y + L) % B # 0)
          IN  [i \in 1..m |-> i] \o <<-1>> \o [i \in 1..z |-> 0] \o LenField(m)
Cut(m) == [i \in 1..(Len(m) \div B) |-> SubSeq(m, (i - 1) * B + 1, i * B)]
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Flat(SubSeq(bs, 1, Len(bs) - 1)) \o bs[Len(bs)]

IsMessage == ~done => /\ used \in 0..(B - 1) /\ total = n
                      /\ Flat(blocks) \o SubSeq(buf, 1, used) = [i \in 1..n |-> i]
IsPadded == done => blocks = Cut(Pad(n))
=============================================================================
