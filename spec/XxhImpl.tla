------------------------------- MODULE XxhImpl -------------------------------
(* xxHash as it is built (include/cthash/xxhash.hpp): a stripe buffer whose *)
(* fill is the total length modulo the stripe, the stripes given to the     *)
(* accumulators, and a digest that may be asked at any time.  Symbolic as   *)
(* MdImpl.                                                                  *)
(* Refinement: the stripes and the buffered remainder are the message, and  *)
(* the digest uses the accumulators exactly for messages of a stripe or     *)
(* more, the total length, and the remainder.                               *)
EXTENDS Integers, Sequences
CONSTANTS S, MaxPiece, MaxTotal, Bug
VARIABLES n, length, stripes, buf, asked
vars == <<n, length, stripes, buf, asked>>
Junk == -1000
Init == n = 0 /\ length = 0 /\ stripes = <<>> /\ buf = [i \in 1..S |-> Junk] /\ asked = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Fill == length % S
Written(at, first, k) == [i \in 1..S |-> IF i > at /\ i <= at + k THEN first + (i - at - 1) ELSE buf[i]]
RECURSIVE Whole(_, _, _)
Whole(ss, first, k) == IF k >= S THEN Whole(Append(ss, [i \in 1..S |-> first + i - 1]), first + S, k - S) ELSE <<ss, first, k>>
Update(k) ==
  /\ n + k <= MaxTotal /\ n' = n + k /\ asked' = <<>>
  /\ length' = length + (IF Bug = "length-low-bits" THEN k % 4 ELSE k)
  /\ LET room == S - Fill
         first == n + 1
         c == IF Fill = 0 THEN 0 ELSE Min(k, room)
         b1 == Written(Fill, first, c)
         stop == Fill # 0 /\ c # room
         w == Whole(IF Fill # 0 /\ ~stop THEN Append(stripes, b1) ELSE stripes, first + c, k - c)
     IN  IF stop THEN buf' = b1 /\ stripes' = stripes
         ELSE /\ stripes' = w[1]
              /\ buf' = [i \in 1..S |-> IF i <= w[3] THEN w[2] + i - 1 ELSE b1[i]]
\* <<whether the accumulators are used, length, remainder>>
Digest == <<IF Bug = "accumulators-from-more" THEN length > S ELSE length >= S, length, SubSeq(buf, 1, Fill)>>
Ask == asked' = <<Digest>> /\ UNCHANGED <<n, length, stripes, buf>>
Next == Ask \/ \E k \in 0..MaxPiece : Update(k)
IsMessage == /\ length = n /\ Len(stripes) = n \div S
             /\ \A i \in 1..Len(stripes) : stripes[i] = [j \in 1..S |-> (i - 1) * S + j]
             /\ SubSeq(buf, 1, n % S) = [j \in 1..(n % S) |-> n - (n % S) + j]
IsDigest == asked # <<>> => asked[1] = <<n >= S, n, [j \in 1..(n % S) |-> n - (n % S) + j]>>
=============================================================================
