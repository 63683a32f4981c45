------------------------------ MODULE AgreeTrace ------------------------------
(* Recorded observations [way, input, result] are a behaviour of Agree.     *)
EXTENDS Agree, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<f, s, l>>
Ev == Sessions[s][l]
Step == l <= Len(Sessions[s]) /\ Len(Ev) = 3 /\ Ev[1] # "crash" /\ Observe(Ev[1], Ev[2], Ev[3]) /\ l' = l + 1 /\ UNCHANGED s
Init == s \in DOMAIN Sessions /\ l = 1 /\ f = <<>>
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == Step \/ Done
TypeOK == Injective => Cardinality({f[k] : k \in DOMAIN f}) = Cardinality(DOMAIN f)
=============================================================================
