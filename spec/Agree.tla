-------------------------------- MODULE Agree --------------------------------
(* One computation, several ways to obtain it (when it is evaluated, which  *)
(* container carries the input, which distribution is used): the result is  *)
(* a function of what is computed, never of the way.                        *)
(*                                                                          *)
(* The function is not known in advance; the first observation of a         *)
(* computation determines it and every later one must agree.  With          *)
(* Injective set, different inputs of one group never share a result (for   *)
(* digests: the result really depends on every byte of the input).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Injective
VARIABLE f                      \* input -> result, as far as observed

Observe(way, input, result) ==
  IF input \in DOMAIN f
  THEN f[input] = result /\ UNCHANGED f
  ELSE /\ Injective => \A k \in DOMAIN f : f[k] # result
       /\ f' = (input :> result) @@ f
=============================================================================
