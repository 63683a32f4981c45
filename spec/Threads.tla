------------------------------ MODULE Threads ------------------------------
(* Threads that work on their own hash objects.  Every call is split into   *)
(* its steps (absorb one unit at a time, then return), so calls of          *)
(* different threads interleave arbitrarily.  What each thread gets must be *)
(* what it gets alone.                                                      *)
(*                                                                          *)
(* Scratch = FALSE is the library as it is promised: all working storage of *)
(* a call belongs to the call.  Scratch = TRUE adds one scratch cell shared *)
(* by all calls (a static buffer, say); TLC then finds an interleaving that *)
(* breaks Alone, which is why the implementation must have none.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thr, Prog, Scratch
\* Prog: thread -> sequence of piece lengths to feed; bytes are <<thread, i>>

VARIABLES obj, pc, todo, cell, out
vars == <<obj, pc, todo, cell, out>>

Init == /\ obj = [t \in Thr |-> <<>>]        \* what the object has absorbed
        /\ pc = [t \in Thr |-> 1]            \* next call
        /\ todo = [t \in Thr |-> <<>>]       \* units of the running call still to absorb
        /\ cell = [t \in Thr |-> <<>>]       \* working storage of the running call
        /\ out = [t \in Thr |-> <<>>]        \* digest obtained (as a message)

C(t) == IF Scratch THEN CHOOSE x \in Thr : TRUE ELSE t      \* whose cell a call uses

Call(t) == /\ todo[t] = <<>> /\ pc[t] <= Len(Prog[t]) /\ out[t] = <<>>
           /\ todo' = [todo EXCEPT ![t] = [i \in 1..Prog[t][pc[t]] |-> <<t, Len(obj[t]) + i>>]]
           /\ pc' = [pc EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<obj, cell, out>>
\* a unit goes through working storage into the object
Load(t) == /\ todo[t] # <<>> /\ (Scratch \/ cell[t] = <<>>)
           /\ cell' = [cell EXCEPT ![C(t)] = <<Head(todo[t])>>]
           /\ Len(todo[t]) > 0
           /\ todo' = [todo EXCEPT ![t] = <<<<0, 0>>>> \o Tail(@)]
           /\ Head(todo[t])[1] # 0
           /\ UNCHANGED <<obj, pc, out>>
Absorb(t) == /\ todo[t] # <<>> /\ Head(todo[t])[1] = 0 /\ cell[C(t)] # <<>>
             /\ obj' = [obj EXCEPT ![t] = Append(@, cell[C(t)][1])]
             /\ cell' = IF Scratch THEN cell ELSE [cell EXCEPT ![t] = <<>>]
             /\ todo' = [todo EXCEPT ![t] = Tail(@)]
             /\ UNCHANGED <<pc, out>>
Finish(t) == /\ todo[t] = <<>> /\ pc[t] > Len(Prog[t]) /\ out[t] = <<>>
             /\ out' = [out EXCEPT ![t] = <<obj[t]>>]
             /\ UNCHANGED <<obj, pc, todo, cell>>
Done == (\A t \in Thr : out[t] # <<>>) /\ UNCHANGED vars
Next == Done \/ \E t \in Thr : Call(t) \/ Load(t) \/ Absorb(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
\* the result of t running by itself
Alone == \A t \in Thr : out[t] # <<>> => out[t][1] = [i \in 1..Sum(Prog[t], Len(Prog[t])) |-> <<t, i>>]
Private == \A t \in Thr : \A i \in DOMAIN obj[t] : obj[t][i] = <<t, i>>
=============================================================================
