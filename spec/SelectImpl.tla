----------------------------- MODULE SelectImpl -----------------------------
(* The choice of the encoding from a format specification as it is built     *)
(* (include/cthash/encoding/encodings.hpp): characters are copied, narrowed, *)
(* into a buffer as long as the longest name until a closing brace or the    *)
(* end, and the buffer is then compared with every name.                     *)
(* Characters are small numbers: Brace closes, 0 is NUL, those from Narrow   *)
(* on do not fit the narrow type, where they turn into c - Narrow.           *)
(* Refinement: whatever the specification is, the outcome is that of looking *)
(* its name up in the table, and reading stops at the brace or the end.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxInput, Bug
Brace == 9
Narrow == 10
Chars == {0, 1, 2, 3, Brace, Narrow + 1}
Table == {<<<<1, 2>>, "A">>, <<<<1, 2, 3, 1>>, "B">>, <<<<2>>, "C">>, <<<<3, 1>>, "A">>}
Longest == 4
VARIABLES input, it, buf, state, result
vars == <<input, it, buf, state, result>>
Inputs == UNION {[1..k -> Chars] : k \in 0..MaxInput}
Init == input \in Inputs /\ it = 1 /\ buf = <<>> /\ state = "start" /\ result = "none"
Stop == it > Len(input) \/ (it <= Len(input) /\ input[it] = Brace)
Narrowed(c) == IF c >= Narrow THEN c - Narrow ELSE c
Start == /\ state = "start"
         /\ IF Stop /\ Bug # "empty-is-a-name" THEN state' = "done" /\ result' = "default" ELSE state' = "read" /\ result' = result
         /\ UNCHANGED <<input, it, buf>>
Read ==
  /\ state = "read" /\ ~Stop
  /\ LET c == input[it]
     IN  IF (Len(buf) = Longest /\ Bug \notin {"rest-dropped", "full-stays"}) \/ (c # Narrowed(c) /\ Bug # "low-bits")
         THEN state' = "done" /\ result' = "rejected" /\ UNCHANGED <<buf, it>>
         ELSE /\ buf' = IF Len(buf) = Longest THEN buf ELSE Append(buf, Narrowed(c))
              /\ it' = (IF Bug = "full-stays" /\ Len(buf) = Longest THEN it ELSE it + 1) /\ UNCHANGED <<state, result>>
  /\ UNCHANGED input
\* the buffer is zero behind what was copied
RECURSIVE CutNul(_)
CutNul(b) == IF b = <<>> THEN b ELSE IF b[1] = 0 THEN <<>> ELSE <<b[1]>> \o CutNul(Tail(b))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Matches(name, b) == CASE Bug = "up-to-nul" -> CutNul(b) = name
                      [] Bug = "name-is-prefix" -> IsPrefix(name, b)
                      [] Bug = "prefix-of-name" -> IsPrefix(b, name)
                      [] OTHER -> b = name
Finish ==
  /\ state = "read" /\ Stop
  /\ LET hit == {e \in Table : Matches(e[1], buf)}
     IN  result' = IF hit = {} THEN "rejected" ELSE (CHOOSE e \in hit : TRUE)[2]
  /\ state' = "done"
  /\ it' = IF Bug = "brace-consumed" THEN it + 1 ELSE it
  /\ UNCHANGED <<input, buf>>
Done == state = "done" /\ UNCHANGED vars
Next == Start \/ Read \/ Finish \/ Done

\* ------------------------------------------------- what a specification means
End == LET b == {i \in DOMAIN input : input[i] = Brace} IN IF b = {} THEN Len(input) + 1 ELSE CHOOSE i \in b : \A j \in b : i <= j
Name == SubSeq(input, 1, End - 1)
Meaning == IF Name = <<>> THEN "default"
           ELSE IF \E e \in Table : e[1] = Name THEN (CHOOSE e \in Table : e[1] = Name)[2] ELSE "rejected"
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(state = "done")
IsMeaning == state = "done" => result = Meaning
IsAtEnd == (state = "done" /\ result # "rejected") => it = End
IsBounded == Len(buf) <= Longest /\ it <= Len(input) + 1 + (IF Bug = "brace-consumed" THEN 1 ELSE 0)
=============================================================================
