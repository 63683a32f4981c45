---------------------------- MODULE BitQueueTrace ----------------------------
(* Recorded uses of the real bit buffers are behaviours of BitQueue.        *)
EXTENDS BitQueue, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<inb, outb, cap, q, s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s
\* every operation is recorded with what could be seen after it:
\* e.obs = <<size, free, empty, full, canpop, canpush, front or <<>> >>
Seen(o) == /\ Counts(o[1], o[2], o[3], o[4], o[5], o[6])
           /\ IF PopEnabled THEN FrontIs(o[7]) ELSE o[7] = <<>>
DoNew   == Is("new") /\ inb' = Ev[2] /\ outb' = Ev[3] /\ cap' = Ev[4] /\ q' = <<>>
DoSee   == Is("see") /\ Seen(Ev[2]) /\ UNCHANGED <<inb, outb, cap, q>>
DoPush  == Is("push") /\ Push(Ev[2])
DoPop   == Is("pop") /\ Pop
DoAlign == Is("align") /\ Align(Ev[2])
DoPad   == Is("pad") /\ Pad(Ev[2])
\* basic_bit_buffer
DoPushN == Is("pushn") /\ PushN(Ev[2], Ev[3])
DoPushZ == Is("zeros") /\ PushZeros(Ev[2])
DoPopN  == Is("popn") /\ PopN(Ev[2])
DoFrontN == Is("frontn") /\ FrontN(Ev[2], Ev[3]) /\ UNCHANGED <<inb, outb, cap, q>>
DoCount == Is("count") /\ BitCounts(Ev[2], Ev[3], Ev[4], Ev[5]) /\ UNCHANGED <<inb, outb, cap, q>>
Init == s \in DOMAIN Sessions /\ l = 1 /\ inb = 0 /\ outb = 0 /\ cap = 0 /\ q = <<>>
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoNew \/ DoSee \/ DoPush \/ DoPop \/ DoAlign \/ DoPad \/ DoPushN \/ DoPushZ \/ DoPopN \/ DoFrontN \/ DoCount \/ Done
TypeOK == Used <= cap
=============================================================================
