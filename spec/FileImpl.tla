------------------------------ MODULE FileImpl ------------------------------
(* How the checksum tool gets at the bytes of a file (checksum.cpp): a file  *)
(* that announces a size and can be mapped is mapped, anything else is read  *)
(* from the start in pieces, each as long as the system happens to deliver,  *)
(* into a buffer that grows by Step, until nothing more comes or it fails.   *)
(* The k-th byte of the file is k; Junk is memory that was never written.    *)
(* Refinement: whatever the deliveries, what is hashed is the whole file,    *)
(* and a file that cannot be opened or read to its end is refused; and it    *)
(* ends (Ends), in however small pieces the system delivers.                 *)
EXTENDS Integers, Sequences
CONSTANTS Step, MaxFile, Bug
VARIABLES file,      \* its length, or -1 if it cannot be opened
          announced, \* the size it announces: its length, or 0, or -1 (a failure)
          maps,      \* whether it can be mapped
          fails,     \* the position where reading fails, or -1
          state, buf, got, at, hashed
vars == <<file, announced, maps, fails, state, buf, got, at, hashed>>
Junk == -1000
Init == /\ file \in -1..MaxFile
        /\ announced \in IF file = -1 THEN {0} ELSE {file, 0, -1}
        /\ maps \in (IF file > 0 /\ announced = file THEN {TRUE, FALSE} ELSE {FALSE})
        /\ fails \in (IF file = -1 \/ maps THEN {-1} ELSE -1..file)
        /\ state = "open" /\ buf = <<>> /\ got = 0 /\ hashed = <<>>
        /\ at \in (IF announced = file /\ file > 0 THEN {file} ELSE {0})      \* finding out the size moved the position
Bytes(k) == [i \in 1..k |-> i]
Open == /\ state = "open"
        /\ IF file = -1 THEN state' = "refused" /\ UNCHANGED <<hashed, at>>
           ELSE IF maps THEN state' = "done" /\ hashed' = <<Bytes(announced)>> /\ UNCHANGED at
           ELSE /\ state' = "read" /\ UNCHANGED hashed
                /\ at' = IF Bug = "not-rewound" THEN at ELSE 0
        /\ UNCHANGED <<file, announced, maps, fails, buf, got>>
Min(a, b) == IF a < b THEN a ELSE b
Grown == [i \in 1..(got + Step) |-> IF i <= Len(buf) THEN buf[i] ELSE Junk]
Finish == state' = "done" /\ hashed' = <<SubSeq(Grown, 1, IF Bug = "whole-buffer" THEN Len(Grown) ELSE got)>>
Deliver(k) ==
  /\ state = "read" /\ at # fails
  /\ k \in 0..Min(Step, (IF fails = -1 THEN file ELSE fails) - at)
  /\ k = 0 => at = file                     \* nothing more comes at the end only
  /\ LET room == IF Bug = "overwritten" THEN 0 ELSE got
         b == [i \in 1..Len(Grown) |-> IF i > room /\ i <= room + k THEN at + i - room ELSE Grown[i]]
     IN  IF (k = 0 /\ Bug # "end-is-retried") \/ (Bug = "short-is-end" /\ k < Step)
         THEN /\ state' = "done" /\ buf' = b /\ got' = got + k /\ UNCHANGED at
              /\ hashed' = <<SubSeq(b, 1, IF Bug = "whole-buffer" THEN Len(b) ELSE got + k)>>
         ELSE buf' = b /\ got' = got + k /\ at' = at + k /\ UNCHANGED <<state, hashed>>
  /\ UNCHANGED <<file, announced, maps, fails>>
Fail == /\ state = "read" /\ at = fails
        /\ IF Bug = "failure-is-end" THEN Finish ELSE state' = "refused" /\ UNCHANGED hashed
        /\ UNCHANGED <<file, announced, maps, fails, buf, got, at>>
Done == state \in {"done", "refused"} /\ UNCHANGED vars
Next == Open \/ Fail \/ Done \/ \E k \in 0..Step : Deliver(k)
\* as long as the tool gets to run, it ends
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(state \in {"done", "refused"})
IsWhole == state = "done" => file >= 0 /\ fails = -1 /\ hashed = <<Bytes(file)>>
IsRefused == state = "refused" => hashed = <<>> /\ (file = -1 \/ fails # -1)
=============================================================================
