------------------------------- MODULE EncView -------------------------------
(* The abstract machine of an encoded view: a text that is a function of    *)
(* the viewed bytes, and iterators that are positions in it.                *)
EXTENDS BaseN

VARIABLES enc,      \* encoding name
          bytes,    \* what the view looks at
          pos       \* iterator -> position (0-based)
Text == Encode(enc, bytes)
N == EncLen(enc, Len(bytes))

Put(i, p) == [x \in DOMAIN pos \cup {i} |-> IF x = i THEN p ELSE pos[x]]
AtEnd(i) == pos[i] = N

Begin(i)       == pos' = Put(i, 0) /\ UNCHANGED <<enc, bytes>>
CopyIt(i, j)   == i \in DOMAIN pos /\ pos' = Put(j, pos[i]) /\ UNCHANGED <<enc, bytes>>
Inc(i)         == i \in DOMAIN pos /\ ~ AtEnd(i) /\ pos' = Put(i, pos[i] + 1) /\ UNCHANGED <<enc, bytes>>
\* j = i++
PostInc(i, j)  == i \in DOMAIN pos /\ ~ AtEnd(i) /\ i # j
                  /\ pos' = [x \in DOMAIN pos \cup {j} |-> IF x = j THEN pos[i] ELSE IF x = i THEN pos[i] + 1 ELSE pos[x]]
                  /\ UNCHANGED <<enc, bytes>>
Deref(i, c)    == i \in DOMAIN pos /\ ~ AtEnd(i) /\ c = Text[pos[i] + 1] /\ UNCHANGED <<enc, bytes, pos>>
EndTest(i, b)  == i \in DOMAIN pos /\ b = AtEnd(i) /\ UNCHANGED <<enc, bytes, pos>>
\* a whole iteration from begin to end
Iterate(t)     == t = Text /\ UNCHANGED <<enc, bytes, pos>>
SizeIs(n)      == n = N /\ UNCHANGED <<enc, bytes, pos>>
\* the view is replaced by a copy of it: its iterators are gone
Reseat         == pos' = <<>> /\ UNCHANGED <<enc, bytes>>
\* the viewed range changes: positions in the old text mean nothing any more
Mutate(k, v)   == k \in DOMAIN bytes /\ bytes' = [bytes EXCEPT ![k] = v] /\ pos' = <<>> /\ UNCHANGED enc
\* the viewed container gets another content, of any length
Refill(bs)     == bytes' = bs /\ pos' = <<>> /\ UNCHANGED enc
=============================================================================
