------------------------------ MODULE ChunkImpl ------------------------------
(* The bit buffer and the chunk-of-bits iterator as they are built          *)
(* (include/cthash/encoding/bit-buffer.hpp, chunk-of-bits.hpp): a shift     *)
(* register of lcm(In, Out) bits with a fill count, fed from the input only *)
(* when it cannot give a chunk, padded at the end of the input, with a      *)
(* count of missing bits that tells fill from data.  Bits are symbolic: bit *)
(* i of the input is the number i and 0 is fill, so every content is        *)
(* covered, for every geometry, length and kind of padding in the           *)
(* configuration.                                                           *)
(*                                                                          *)
(* Refinement: the register is the FIFO queue of BitQueue (Queue), and the  *)
(* chunks are those of BaseN!Chunks: the bits regrouped in order, the last  *)
(* chunk filled with zeros, the fill counted (Regrouped); the announced     *)
(* size is their number.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ins, Outs, MaxLcm, Bug
VARIABLES inb, outb, allow, n,        \* geometry, kind of padding, elements of input
          reg, avail, missing,        \* shift register (oldest bit first), bits in it, missing bits
          it,                         \* elements consumed
          out,                        \* chunks yielded: <<bits, missing>>
          ended, q                    \* end reached; the abstract queue (history variable)
vars == <<inb, outb, allow, n, reg, avail, missing, it, out, ended, q>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Cap == (inb \div Gcd(inb, outb)) * outb
\* the storage is the smallest integer type that holds the capacity
Store == IF Cap <= 8 THEN 8 ELSE IF Cap <= 16 THEN 16 ELSE IF Cap <= 32 THEN 32 ELSE 64
Zeros(k) == [i \in 1..k |-> 0]
\* reg << k and a value of k bits or'ed in
Shift(r, bits) == SubSeq(r \o bits, Len(bits) + 1, Len(r) + Len(bits))
Front(r, a) == SubSeq(r, Len(r) - a + 1, Len(r) - a + outb)
Elem(i) == [j \in 1..inb |-> ((i - 1) * inb) + j]

\* whole input units of zeros until the output is aligned
RECURSIVE PadCount(_, _)
PadCount(m, p) == IF m = 0 THEN p ELSE PadCount((m + inb) % outb, p + inb)

(* feed_buffer: <<reg, avail, missing, it, queue>> *)
RECURSIVE Feed(_, _, _, _, _)
Feed(r, a, m, i, qq) ==
  LET can == IF Bug = "feed-at-equal" THEN a > outb ELSE a >= outb
  IN  IF i = n
      THEN IF can THEN <<r, a, IF allow /\ m # 0 THEN outb ELSE m, i, qq>>
           ELSE IF allow
                THEN LET p == IF Bug = "pad-again" THEN (IF PadCount(a, 0) = 0 THEN Cap ELSE PadCount(a, 0)) ELSE IF Bug = "pad-one-element" /\ a # 0 THEN inb ELSE PadCount(a, 0)
                     IN  <<Shift(r, Zeros(p)), a + p, outb - a, i, qq \o Zeros(p)>>
                ELSE LET p == IF a = 0 THEN 0 ELSE outb - a
                     IN  <<Shift(r, Zeros(p)), a + p, p, i, qq \o Zeros(p)>>
      ELSE IF can THEN <<r, a, m, i, qq>>
           ELSE Feed(Shift(r, Elem(i + 1)), a + inb, m, i + 1, qq \o Elem(i + 1))
Take(f) == reg' = f[1] /\ avail' = f[2] /\ missing' = f[3] /\ it' = f[4] /\ q' = f[5]

Init == /\ inb \in Ins /\ outb \in Outs /\ allow \in BOOLEAN /\ inb > 1 /\ Cap <= MaxLcm
        /\ n \in 0..(2 * (Cap \div inb) + 2)
        /\ reg = Zeros(Store) /\ avail = 0 /\ missing = 0 /\ it = 0 /\ out = <<>> /\ ended = FALSE /\ q = <<>>
\* the iterator is constructed: it = -1 marks that in Begun below
Begin == /\ out = <<>> /\ it = 0 /\ avail = 0 /\ ~ended /\ q = <<>>
         /\ Take(Feed(reg, 0, 0, 0, <<>>))
         /\ ended' = (avail' = 0) /\ UNCHANGED <<inb, outb, allow, n, out>>
\* *it, then ++it
Step == /\ avail > 0 /\ ~ended
        /\ out' = Append(out, <<Front(reg, avail), missing>>)
        /\ Take(Feed(reg, IF Bug = "pop-element" THEN avail - Gcd(inb, outb) ELSE avail - outb, missing, it, SubSeq(q, outb + 1, Len(q))))
        /\ ended' = (avail' = 0)
        /\ UNCHANGED <<inb, outb, allow, n>>
Stop == ended /\ UNCHANGED vars
Next == Begin \/ Step \/ Stop

CeilDiv(a, b) == (a + b - 1) \div b
Count == IF allow THEN CeilDiv(n * inb, Cap) * (Cap \div outb) ELSE CeilDiv(n * inb, outb)
\* what size() computes
Announced == IF allow THEN ((n + ((Cap \div inb) - 1)) \div (Cap \div inb)) * (Cap \div outb) ELSE ((n * inb) + (outb - 1)) \div outb
Expected(k) == LET real == (n * inb) - ((k - 1) * outb)
                   fill == IF real >= outb THEN 0 ELSE IF real <= 0 THEN outb ELSE outb - real
               IN  <<[j \in 1..outb |-> IF ((k - 1) * outb) + j <= n * inb THEN ((k - 1) * outb) + j ELSE 0], fill>>
\* padding characters take the place of chunks that are fill only; other fill counts are compared exactly
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>ended
Queue == avail \in 0..Cap /\ SubSeq(reg, Store - avail + 1, Store) = q
Regrouped == \A k \in 1..Len(out) : out[k] = Expected(k)
Complete == Len(out) <= Count /\ (ended => Len(out) = Count /\ Announced = Count)
=============================================================================
