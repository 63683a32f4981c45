---------------------------- MODULE ChunkViewTrace ---------------------------
(* Recorded uses of the real chunk views are behaviours of ChunkView.        *)
EXTENDS ChunkView, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<par, bytes, pos, s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s

\* ["view", bits of an element, bits of a chunk, filled, bytes]
DoView  == Is("view") /\ par' = <<Ev[2], Ev[3], Ev[4]>> /\ bytes' = Ev[5] /\ pos' = <<>>
DoBegin == Is("begin") /\ Begin(Ev[2])
DoCopy  == Is("copy") /\ CopyIt(Ev[2], Ev[3])
DoInc   == Is("inc") /\ Inc(Ev[2])
DoPost  == Is("post") /\ PostInc(Ev[2], Ev[3])
DoDeref == Is("deref") /\ Deref(Ev[2], Ev[3])
DoEnd   == Is("end") /\ EndTest(Ev[2], Ev[3])
DoEqual == Is("equal") /\ Equal(Ev[2], Ev[3], Ev[4])
DoIter  == Is("iter") /\ Iterate(Ev[2])
DoSize  == Is("size") /\ (SizeIs(Ev[2]) \/ (Ev[2] = -1 /\ UNCHANGED <<par, bytes, pos>>))
DoSeat  == Is("seat") /\ Reseat
DoSet   == Is("set") /\ Refill(Ev[2])
DoMut   == Is("mut") /\ Mutate(Ev[2], Ev[3])
Init == s \in DOMAIN Sessions /\ l = 1 /\ par = <<8, 8, FALSE>> /\ bytes = <<>> /\ pos = <<>>
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoView \/ DoBegin \/ DoCopy \/ DoInc \/ DoPost \/ DoDeref \/ DoEnd \/ DoEqual \/ DoIter \/ DoSize \/ DoSeat \/ DoMut \/ DoSet \/ Done
TypeOK == \A i \in DOMAIN pos : pos[i] \in 0..N
=============================================================================
