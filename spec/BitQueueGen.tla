----------------------------- MODULE BitQueueGen -----------------------------
(* Enumerates the histories of a bit buffer for replay; checks that the     *)
(* machine is a FIFO queue: everything popped, followed by what is queued,  *)
(* is everything pushed.                                                    *)
EXTENDS BitQueue, Json
CONSTANTS MaxOps, Geometries
VARIABLES hist, ins, outs
vars == <<inb, outb, cap, q, hist, ins, outs>>
Rec(e) == Len(hist) < MaxOps /\ hist' = Append(hist, e)
Val(n) == <<(20077 + (12379 * n)) % 65536, (911 * n) % 65536, n, 0>>
\* each value is used as an input unit, so it has only inb bits
GPush == \E v \in {Val(Len(hist))} : Push(v) /\ ins' = ins \o BitsOf(v, inb) /\ UNCHANGED outs /\ Rec("push")
GZero == Push(<<0, 0, 0, 0>>) /\ ins' = ins \o Zeros(inb) /\ UNCHANGED outs /\ Rec("pushz")
GPop  == Pop /\ outs' = outs \o SubSeq(q, 1, outb) /\ UNCHANGED ins /\ Rec("pop")
GAlign == Align(AlignFill) /\ ins' = ins \o Zeros(AlignFill) /\ UNCHANGED outs /\ Rec("align")
GPad  == PadEnabled /\ Pad(IF inb = 1 THEN 0 ELSE Used) /\ ins' = ins \o Zeros(PadFill) /\ UNCHANGED outs /\ Rec("pad")
Init == /\ \E g \in Geometries : inb = g[1] /\ outb = g[2] /\ cap = g[3]
        /\ q = <<>> /\ hist = <<>> /\ ins = <<>> /\ outs = <<>>
Next == GPush \/ GZero \/ GPop \/ GAlign \/ GPad
FIFO == outs \o q = ins
Bounded == Used <= cap
\* after a zero-fill the queue holds whole output units
Whole == hist # <<>> /\ hist[Len(hist)] \in {"align", "pad"} /\ inb # 1 => Used % outb = 0
Dump == Len(hist) = MaxOps => PrintT("H " \o ToJson(<<inb, outb, cap, hist>>))
=============================================================================
