------------------------------ MODULE ChunkView ------------------------------
(* The abstract machine of a chunk-of-bits view: the sequence of chunks is a *)
(* function of the viewed elements, and its iterators are positions in it    *)
(* which compare as the positions do.                                        *)
EXTENDS BaseN

VARIABLES par,      \* <<bits of an element, bits of a chunk, filled up to whole groups>>
          bytes,    \* the viewed elements, each as its bytes
          pos       \* iterator -> position (0-based)
All == Chunks(bytes, par[1], par[2], par[3])
N == LET n == 8 * Len(bytes)  g == Lcm(par[1], par[2])
     IN  IF par[3] THEN CeilDiv(n, g) * (g \div par[2]) ELSE CeilDiv(n, par[2])

Put(i, p) == [x \in DOMAIN pos \cup {i} |-> IF x = i THEN p ELSE pos[x]]
AtEnd(i) == pos[i] = N

Begin(i)       == pos' = Put(i, 0) /\ UNCHANGED <<par, bytes>>
CopyIt(i, j)   == i \in DOMAIN pos /\ pos' = Put(j, pos[i]) /\ UNCHANGED <<par, bytes>>
Inc(i)         == i \in DOMAIN pos /\ ~ AtEnd(i) /\ pos' = Put(i, pos[i] + 1) /\ UNCHANGED <<par, bytes>>
\* j = i++
PostInc(i, j)  == i \in DOMAIN pos /\ ~ AtEnd(i) /\ i # j
                  /\ pos' = [x \in DOMAIN pos \cup {j} |-> IF x = j THEN pos[i] ELSE IF x = i THEN pos[i] + 1 ELSE pos[x]]
                  /\ UNCHANGED <<par, bytes>>
Deref(i, c)    == i \in DOMAIN pos /\ ~ AtEnd(i) /\ c = All[pos[i] + 1] /\ UNCHANGED <<par, bytes, pos>>
EndTest(i, b)  == i \in DOMAIN pos /\ b = AtEnd(i) /\ UNCHANGED <<par, bytes, pos>>
Equal(i, j, b) == i \in DOMAIN pos /\ j \in DOMAIN pos /\ b = (pos[i] = pos[j]) /\ UNCHANGED <<par, bytes, pos>>
Iterate(t)     == t = All /\ UNCHANGED <<par, bytes, pos>>
SizeIs(n)      == n = N /\ UNCHANGED <<par, bytes, pos>>
\* the view is replaced by a copy of it: its iterators are gone
Reseat         == pos' = <<>> /\ UNCHANGED <<par, bytes>>
\* the viewed container gets other elements, of any number
Refill(bs)     == Len(bs) % (par[1] \div 8) = 0 /\ bytes' = bs /\ pos' = <<>> /\ UNCHANGED par
\* an element changes
Mutate(k, e)   == LET m == par[1] \div 8
                  IN  /\ (k - 1) * m \in 0..(Len(bytes) - m) /\ Len(e) = m
                      /\ bytes' = [x \in DOMAIN bytes |-> IF x \in ((k - 1) * m) + 1 .. k * m THEN e[x - ((k - 1) * m)] ELSE bytes[x]]
                      /\ pos' = <<>> /\ UNCHANGED par
=============================================================================
