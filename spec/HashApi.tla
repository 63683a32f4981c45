------------------------------ MODULE HashApi ------------------------------
(* The abstract machine every hash object of the library implements: an     *)
(* object IS the message it has been fed, nothing else.                     *)
(*                                                                          *)
(* A message is kept as a normal-form sequence of segments <<k, a, b>>: the *)
(* bytes a..b-1 of byte stream number k.  Adjacent segments of one stream   *)
(* are joined and empty ones dropped, so two feeding histories of the same  *)
(* bytes have the same normal form, however they were cut.                  *)
EXTENDS Integers, Sequences, FiniteSets

Extend(m, k, a, b) ==
  IF a = b THEN m
  ELSE IF m # <<>> /\ m[Len(m)][1] = k /\ m[Len(m)][3] = a
       THEN [m EXCEPT ![Len(m)] = <<k, @[2], b>>]
       ELSE Append(m, <<k, a, b>>)

\* total number of bytes
RECURSIVE Size(_)
Size(m) == IF m = <<>> THEN 0 ELSE (m[Len(m)][3] - m[Len(m)][2]) + Size(SubSeq(m, 1, Len(m) - 1))

VARIABLE objs                  \* live object -> message

Put(o, m) == [x \in DOMAIN objs \cup {o} |-> IF x = o THEN m ELSE objs[x]]
Without(o) == [x \in DOMAIN objs \ {o} |-> objs[x]]

New(o)          == objs' = Put(o, <<>>)
Update(o, k, a, b) == o \in DOMAIN objs /\ objs' = Put(o, Extend(objs[o], k, a, b))
\* p becomes a copy of o, whether constructed or assigned
Copy(o, p)      == o \in DOMAIN objs /\ objs' = Put(p, objs[o])
\* as Copy; what is left in o is unspecified, so o is not live any more
Move(o, p)      == /\ o \in DOMAIN objs
                   /\ objs' = [x \in (DOMAIN objs \cup {p}) \ {o} |-> IF x = p THEN objs[o] ELSE objs[x]]
\* the digest returned is that of the message m
Final(o, m)     == o \in DOMAIN objs /\ m = objs[o] /\ objs' = Without(o)
\* a digest that leaves the object as it is (copies of SHA objects; xxHash)
Peek(o, m)      == o \in DOMAIN objs /\ m = objs[o] /\ UNCHANGED objs
Destroy(o)      == o \in DOMAIN objs /\ objs' = Without(o)
=============================================================================
