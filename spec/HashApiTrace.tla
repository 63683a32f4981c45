---------------------------- MODULE HashApiTrace ----------------------------
(* Recorded executions of the real hash objects are behaviours of HashApi.  *)
(* A digest is recorded as the message it is the digest of (the recorder    *)
(* inverts a table of the digests of whole messages; <<<<0, 0, 0>>>>,        *)
(* which no object can hold, when it is the digest of none of them).        *)
EXTENDS HashApi, Json, IOUtils, TLC

Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<objs, s, l>>

Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s

DoNew   == Is("new") /\ New(Ev[2])
DoUpd   == Is("upd") /\ Update(Ev[2], Ev[3], Ev[4], Ev[5])        \* o, k, a, b
DoCopy  == Is("copy") /\ Copy(Ev[2], Ev[3])
DoMove  == Is("move") /\ Move(Ev[2], Ev[3])
DoFin   == Is("fin") /\ Final(Ev[2], Ev[3])
DoPeek  == Is("peek") /\ Peek(Ev[2], Ev[3])
DoDel   == Is("del") /\ Destroy(Ev[2])
\* ["row", o, k, n0, <<L0, L1, ...>>]: copies of o fed n0 + i more bytes of
\* stream k gave the digest of the first Li bytes of stream k
DoRow   == /\ Is("row") /\ Ev[2] \in DOMAIN objs
           /\ LET m == objs[Ev[2]]  n0 == Ev[4]  L == Ev[5]
                  o0 == IF m = <<>> THEN 0 ELSE m[1][3]
              IN  \E from \in {o0 + n0 - 1} :
                  /\ m = <<>> \/ (Len(m) = 1 /\ m[1][1] = Ev[3] /\ m[1][2] = 0)
                  /\ \A i \in 1..Len(L) : L[i] = from + i
           /\ UNCHANGED objs
DoSize  == Is("size") /\ Ev[2] \in DOMAIN objs /\ Ev[3] = Size(objs[Ev[2]]) /\ UNCHANGED objs
DoEffects == Is("effects") /\ Ev[2] = 0 /\ UNCHANGED objs

Init == objs = <<>> /\ s \in DOMAIN Sessions /\ l = 1
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoNew \/ DoUpd \/ DoCopy \/ DoMove \/ DoFin \/ DoPeek \/ DoDel \/ DoRow \/ DoSize \/ DoEffects \/ Done
TypeOK == \A o \in DOMAIN objs : \A i \in DOMAIN objs[o] : objs[o][i][2] < objs[o][i][3]
=============================================================================
