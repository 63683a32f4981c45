----------------------------- MODULE HashTrace -----------------------------
(* Concrete conformance: recorded executions of the real hash objects are   *)
(* behaviours of this machine.                                              *)
(*                                                                          *)
(* State: objs maps a live object to the context (HashAlg) of the message   *)
(* it has been fed.  Every public operation is one atomic action, recorded  *)
(* at its return, with its arguments and everything it returned.            *)
(* The file named by VERIF_TRACE holds a sequence of sessions (independent  *)
(* histories); each initial state picks one.  An event that no action       *)
(* explains leaves the machine stuck: TLC reports a deadlock at it.         *)
EXTENDS HashAlg, Json, IOUtils, FiniteSetsExt

Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES s, l, objs
vars == <<s, l, objs>>

Ev == Sessions[s][l]
Put(o, c) == [x \in DOMAIN objs \cup {o} |-> IF x = o THEN c ELSE objs[x]]
Drop(o) == [x \in DOMAIN objs \ {o} |-> objs[x]]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s

\* ["new", o, name, param]
DoNew == Is("new") /\ objs' = Put(Ev[2], New(<<Ev[3], Ev[4]>>))
\* ["upd", o, bytes]
DoUpd == Is("upd") /\ Ev[2] \in DOMAIN objs /\ objs' = Put(Ev[2], Feed(objs[Ev[2]], Ev[3]))
\* ["copy", o, p]: p is a new object (or an assigned one) equal to o
DoCopy == Is("copy") /\ Ev[2] \in DOMAIN objs /\ objs' = Put(Ev[3], objs[Ev[2]])
\* ["move", o, p]: as copy; o is left unspecified, so the machine forgets it
DoMove == Is("move") /\ Ev[2] \in DOMAIN objs
          /\ objs' = [x \in (DOMAIN objs \cup {Ev[3]}) \ {Ev[2]} |->
                        IF x = Ev[3] THEN objs[Ev[2]] ELSE objs[x]]
\* ["fin", o, digest]: consumes the object, except an xxHash one
DoFin ==
  /\ Is("fin")
  /\ Ev[2] \in DOMAIN objs
  /\ LET c == objs[Ev[2]]
     IN  /\ DigestLen(c.alg) > 0 => Len(Ev[3]) = DigestLen(c.alg)
         /\ Digest(c, Len(Ev[3])) = Ev[3]
         /\ objs' = IF c.alg[1] \in Xx THEN objs ELSE Drop(Ev[2])
\* ["fins", o, digest1, digest2, ...]: what independent copies of o return as their
\* digests (o itself is not touched); for SHAKE the lengths may differ, and all
\* of them are prefixes of one stream
DoFins ==
  /\ Is("fins")
  /\ Ev[2] \in DOMAIN objs
  /\ LET c == objs[Ev[2]]
         ds == SubSeq(Ev, 3, Len(Ev))
     IN  \E m \in {Max({Len(ds[i]) : i \in DOMAIN ds})} :
         \E d \in {Digest(c, m)} :          \* (bound once: evaluated once)
         \A i \in DOMAIN ds :
           /\ DigestLen(c.alg) > 0 => Len(ds[i]) = DigestLen(c.alg)
           /\ ds[i] = SubSeq(d, 1, Len(ds[i]))
  /\ UNCHANGED objs
\* ["size", o, total]: 64-bit word
DoSize == Is("size") /\ Ev[2] \in DOMAIN objs /\ objs[Ev[2]].tot = Ev[3] /\ UNCHANGED objs
\* ["effects", n]: n side effects (allocations, stray writes) since the last event
DoEffects == Is("effects") /\ Ev[2] = 0 /\ UNCHANGED objs

Init == /\ s \in DOMAIN Sessions /\ l = 1 /\ objs = <<>>
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoNew \/ DoUpd \/ DoCopy \/ DoMove \/ DoFin \/ DoFins \/ DoSize \/ DoEffects \/ Done
Spec == Init /\ [][Next]_vars

\* sanity of the machine itself
TypeOK == \A o \in DOMAIN objs : Len(objs[o].tail) < BlockSize(objs[o].alg)
=============================================================================
