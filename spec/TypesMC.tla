------------------------------- MODULE TypesMC -------------------------------
(* The rule is what provenance needs: with it every program preserves       *)
(* provenance (Strict), and one single lapse of it does not (Lapse; TLC     *)
(* must find a counterexample).                                             *)
EXTENDS Types
MCAlgs == {<<"sha256", 256>>, <<"sha3_256", 256>>, <<"shake128", 256>>, <<"shake128", 128>>, <<"xxh64", 64>>}
MCVars == {"u", "v", "w"}
Strict(way, a, b) == Rule(way, a, b)
Lapse(way, a, b) == Rule(way, a, b) \/ (way = "callref" /\ a = <<"shake128", 256>> /\ b = <<"shake128", 128>>)
=============================================================================
