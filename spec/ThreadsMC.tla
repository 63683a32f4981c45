----------------------------- MODULE ThreadsMC -----------------------------
EXTENDS Threads, TLC
P3 == 1 :> <<2, 0, 3>> @@ 2 :> <<1, 2>> @@ 3 :> <<3>>
=============================================================================
