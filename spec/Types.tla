-------------------------------- MODULE Types --------------------------------
(* Digest types as provenance.  A digest type is <<algorithm, bits>>; a     *)
(* program holds digests in typed variables and moves them about by         *)
(* implicit conversions, assignments and parameter passing.  What the type  *)
(* system must guarantee is that a variable declared for one algorithm      *)
(* never holds a digest produced by another one, or of another length.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Algs,       \* set of <<algorithm, bits>>
          Vars,       \* variables of the program
          Permitted(_, _, _)  \* Permitted(way, from, to): what the type checker lets through
VARIABLES decl,       \* variable -> declared type
          held        \* variable -> algorithm that produced the digest it holds

\* ways in which a digest of type a can end up where type b is asked for
Ways == {"same", "convert", "convertlist", "assign", "assignconst", "assignmove", "call", "callref", "callmove", "calllist", "callconst",
         "optional", "common", "pointer", "reference", "nttp", "return", "pair"}
\* the rule
Rule(way, a, b) == a = b

Types_Init == decl \in [Vars -> Algs] /\ held = [v \in Vars |-> decl[v]]
\* a hasher or literal of the declared algorithm is stored
Produce(v) == held' = [held EXCEPT ![v] = decl[v]] /\ UNCHANGED decl
\* a digest moves from v to w, if the type checker permits it
Pass(v, w) == \E way \in Ways : Permitted(way, decl[v], decl[w]) /\ held' = [held EXCEPT ![w] = held[v]] /\ UNCHANGED decl
Types_Next == \E v \in Vars : Produce(v) \/ \E w \in Vars : Pass(v, w)
Provenance == \A v \in Vars : held[v] = decl[v]
=============================================================================
