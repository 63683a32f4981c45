------------------------------ MODULE TypesTrace ------------------------------
(* What the real type checker permits is Rule, and producers yield their    *)
(* own type.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == INSTANCE Types WITH Algs <- {}, Vars <- {}, Permitted <- LAMBDA w, a, b : a = b, decl <- <<>>, held <- <<>>
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s
\* ["permits", way, from, to, yes]
DoPermits == Is("permits") /\ Ev[2] \in T!Ways /\ Ev[5] = T!Rule(Ev[2], Ev[3], Ev[4])
\* ["yields", producer, type it belongs to, the digest types its result is the same as, bytes of the result]
DoYields == Is("yields") /\ Ev[4] = <<Ev[3]>> /\ 8 * Ev[5] = Ev[3][2]
\* ["literal", name, type it belongs to (bits 0: any whole number of bytes), digits, accepted]
DoLiteral == Is("literal") /\ Ev[5] = (Ev[4] % 2 = 0 /\ Ev[4] > 0 /\ (Ev[3][2] # 0 => 4 * Ev[4] = Ev[3][2]))
Init == s \in DOMAIN Sessions /\ l = 1
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoPermits \/ DoYields \/ DoLiteral \/ Done
TypeOK == l >= 1
=============================================================================
