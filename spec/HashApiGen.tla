----------------------------- MODULE HashApiGen -----------------------------
(* Enumerates the histories of the abstract machine (depth MaxOps, at most  *)
(* MaxObjs objects) for replay into the real code, and checks the machine:  *)
(* the message of an object is the concatenation, in order, of the pieces   *)
(* fed to it and to the objects it descends from before it was split off    *)
(* (computed from the history alone), and an operation changes no object it *)
(* does not name.                                                           *)
EXTENDS HashApi, TLC, Json

CONSTANTS MaxOps, MaxObjs, Classes, Ops

VARIABLE hist
vars == <<objs, hist>>

\* piece number i of the history is stream i; its length is one of Classes,
\* a symbol given a size for each algorithm at replay
Sz(c) == 1 + c
N == Len(hist)
Rec(e) == hist' = Append(hist, e)
Fresh == 1 + Cardinality({i \in DOMAIN hist : hist[i][1] \in {"new", "copy", "move"}})

DoNew  == "new" \in Ops /\ Cardinality(DOMAIN objs) < MaxObjs /\ New(Fresh) /\ Rec(<<"new", Fresh>>)
DoUpd  == \E o \in DOMAIN objs, c \in Classes : Update(o, N, 0, Sz(c)) /\ Rec(<<"upd", o, c>>)
DoCopy == /\ "copy" \in Ops /\ Cardinality(DOMAIN objs) < MaxObjs
          /\ \E o \in DOMAIN objs : Copy(o, Fresh) /\ Rec(<<"copy", o, Fresh>>)
DoMove == "move" \in Ops /\ \E o \in DOMAIN objs : Move(o, Fresh) /\ Rec(<<"move", o, Fresh>>)
DoAsg  == "assign" \in Ops /\ \E o \in DOMAIN objs, p \in DOMAIN objs : Copy(o, p) /\ Rec(<<"assign", o, p>>)
DoMasg == "massign" \in Ops /\ \E o \in DOMAIN objs : \E p \in DOMAIN objs \ {o} : Move(o, p) /\ Rec(<<"massign", o, p>>)
DoPeek == "peek" \in Ops /\ \E o \in DOMAIN objs : Peek(o, objs[o]) /\ Rec(<<"peek", o>>)
DoFin  == "fin" \in Ops /\ \E o \in DOMAIN objs : Final(o, objs[o]) /\ Rec(<<"fin", o>>)

Init == objs = [x \in {1} |-> <<>>] /\ hist = <<<<"new", 1>>>>
Next == N <= MaxOps /\ DOMAIN objs # {} /\ (DoNew \/ DoUpd \/ DoCopy \/ DoMove \/ DoAsg \/ DoMasg \/ DoPeek \/ DoFin)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the message of o after the first n operations, from the history alone
RECURSIVE Denote(_, _)
Denote(o, n) ==
  LET e == hist[n]
  IN  CASE e[1] = "new" /\ e[2] = o -> <<>>
        [] e[1] \in {"copy", "move", "assign", "massign"} /\ e[3] = o -> Denote(e[2], n - 1)
        [] e[1] = "upd" /\ e[2] = o -> Append(Denote(o, n - 1), <<n - 1, 0, Sz(e[3])>>)
        [] OTHER -> Denote(o, n - 1)
MessageIsConcatenation == \A o \in DOMAIN objs : objs[o] = Denote(o, N)
Named(e) == {e[2]} \cup (IF e[1] \in {"copy", "move", "assign", "massign"} THEN {e[3]} ELSE {})
Independent == [][\A o \in DOMAIN objs \ Named(hist'[N + 1]) : o \in DOMAIN objs' /\ objs'[o] = objs[o]]_vars

\* print every complete history once
Dump == (N = MaxOps + 1 \/ DOMAIN objs = {}) => PrintT("H " \o ToJson(hist))
=============================================================================
