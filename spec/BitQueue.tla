------------------------------- MODULE BitQueue -------------------------------
(* The abstract machine of the bit buffer: a bounded FIFO queue of bits that *)
(* is filled in units of inb bits and emptied in units of outb bits.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES inb, outb, cap,   \* geometry (fixed during a history)
          q                 \* the queued bits, oldest first

Zeros(n) == [i \in 1..n |-> 0]
\* a number given as limbs of 16 bits, least significant first, as n bits, most significant first
LimbBit(v, k) == (v[(k \div 16) + 1] \div (2 ^ (k % 16))) % 2
BitsOf(v, n) == [i \in 1..n |-> LimbBit(v, n - i)]
\* the number that the bits are, as four limbs
LimbOf(b, i) == FoldLeft(LAMBDA acc, k : (2 * acc) + (IF k < Len(b) THEN b[Len(b) - k] ELSE 0), 0,
                         [j \in 1..16 |-> (16 * (i - 1)) + 16 - j])
Number(b) == <<LimbOf(b, 1), LimbOf(b, 2), LimbOf(b, 3), LimbOf(b, 4)>>

Geometry == UNCHANGED <<inb, outb, cap>>
Used == Len(q)

PushEnabled == Used + inb <= cap
Push(v)   == PushEnabled /\ q' = q \o BitsOf(v, inb) /\ Geometry
PopEnabled == Used >= outb
Pop       == PopEnabled /\ q' = SubSeq(q, outb + 1, Used) /\ Geometry
\* fill the last, incomplete output unit with zeros; ret = how many
AlignEnabled == Used < outb
AlignFill == IF Used = 0 \/ inb = 1 THEN 0 ELSE outb - Used
Align(ret) == AlignEnabled /\ ret = AlignFill /\ q' = q \o Zeros(AlignFill) /\ Geometry
\* fill with the fewest whole input units of zeros that complete an output unit;
\* ret = how many bits of the first unit were there before
PadFill == IF Used = 0 \/ inb = 1 THEN 0 ELSE CHOOSE n \in {k * inb : k \in 1..outb} :
             /\ (Used + n) % outb = 0
             /\ \A k \in 1..outb : ((Used + (k * inb)) % outb = 0) => n <= k * inb
PadEnabled == Used < outb /\ Used + PadFill <= cap
Pad(ret)  == PadEnabled /\ ret = (IF inb = 1 THEN 0 ELSE Used) /\ q' = q \o Zeros(PadFill) /\ Geometry
\* what can be seen
FrontIs(v)  == PopEnabled /\ v = Number(SubSeq(q, 1, outb))
Counts(size, free, empty, full, canpop, canpush) ==
  /\ size = Used \div outb
  /\ free = (cap - Used) \div inb
  /\ empty = (Used = 0) /\ full = (Used = cap)
  /\ canpop = PopEnabled /\ canpush = PushEnabled
\* the general operations of basic_bit_buffer, in units of any size
PushN(n, v)  == Used + n <= cap /\ q' = q \o BitsOf(v, n) /\ Geometry
PushZeros(n) == Used + n <= cap /\ q' = q \o Zeros(n) /\ Geometry
PopN(n)      == Used >= n /\ q' = SubSeq(q, n + 1, Used) /\ Geometry
FrontN(n, v) == Used >= n /\ v = Number(SubSeq(q, 1, n))
BitCounts(size, free, empty, full) ==
  size = Used /\ free = cap - Used /\ empty = (Used = 0) /\ full = (Used = cap)
=============================================================================
