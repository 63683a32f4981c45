------------------------------ MODULE EncTrace ------------------------------
(* Recorded uses of the real encoded views are behaviours of EncView.       *)
EXTENDS EncView, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<enc, bytes, pos, s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s

\* ["view", enc, bytes]
DoView  == Is("view") /\ Ev[2] \in EncNames /\ enc' = Ev[2] /\ bytes' = Ev[3] /\ pos' = <<>>
DoBegin == Is("begin") /\ Begin(Ev[2])
DoCopy  == Is("copy") /\ CopyIt(Ev[2], Ev[3])
DoInc   == Is("inc") /\ Inc(Ev[2])
DoPost  == Is("post") /\ PostInc(Ev[2], Ev[3])
DoDeref == Is("deref") /\ Deref(Ev[2], Ev[3])
DoEnd   == Is("end") /\ EndTest(Ev[2], Ev[3])
DoIter  == Is("iter") /\ Iterate(Ev[2])
DoSize  == Is("size") /\ SizeIs(Ev[2])
DoMut   == Is("mut") /\ Mutate(Ev[2], Ev[3])
DoSet   == Is("set") /\ Refill(Ev[2])
DoSeat  == Is("seat") /\ Reseat
\* ["text", enc, bytes, size or -1, text]: one encoding, all in one
DoText  == Is("text") /\ Ev[2] \in EncNames
           /\ Ev[5] = Encode(Ev[2], Ev[3])
           /\ Ev[4] \in {-1, EncLen(Ev[2], Len(Ev[3]))}
           /\ UNCHANGED <<enc, bytes, pos>>
\* ["bigsize", enc, q, r, u, <<Q, R>>]: announced for 15 q + r bytes is u Q + R
\* (large numbers as two digits of base 2^30); 15 bytes are whole groups
DoBigSize == Is("bigsize") /\ Ev[2] \in EncNames /\ Ev[4] \in 0..14
             /\ Ev[5] = EncLen(Ev[2], 15) /\ (15 * 8) % Lcm(8, Width(Ev[2])) = 0
             /\ UNCHANGED <<enc, bytes, pos>>
             /\ LET r == EncLen(Ev[2], Ev[4])
                IN  IF r < Ev[5] THEN Ev[6] = <<Ev[3], r>>
                    ELSE r = Ev[5] /\ Ev[6] = <<IF Ev[3][2] = 2^30 - 1 THEN <<Ev[3][1] + 1, 0>> ELSE <<Ev[3][1], Ev[3][2] + 1>>, 0>>
\* ["chunks", w, out, padded, bytes, size or -1, <<value, fill>>...]
DoChunks == Is("chunks")
            /\ LET c == Chunks(Ev[5], Ev[2], Ev[3], Ev[4])
               IN  Ev[7] = c /\ Ev[6] \in {-1, Len(c)}
            /\ UNCHANGED <<enc, bytes, pos>>
Init == s \in DOMAIN Sessions /\ l = 1 /\ enc = "base2" /\ bytes = <<>> /\ pos = <<>>
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoView \/ DoBegin \/ DoCopy \/ DoInc \/ DoPost \/ DoDeref \/ DoEnd \/ DoIter \/ DoSize \/ DoMut \/ DoSet \/ DoSeat \/ DoText \/ DoBigSize \/ DoChunks \/ Done
TypeOK == \A i \in DOMAIN pos : pos[i] \in 0..N
=============================================================================
