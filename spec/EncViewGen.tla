----------------------------- MODULE EncViewGen -----------------------------
(* Enumerates histories of iterator operations for replay, and checks the   *)
(* definition of the encodings itself: size, recoverability, alphabet.      *)
EXTENDS EncView, Json
CONSTANTS Its, MaxOps, Lens, GenEncs
VARIABLES hist, len
vars == <<enc, bytes, pos, hist, len>>

Rec(e) == Len(hist) < MaxOps /\ hist' = Append(hist, e) /\ UNCHANGED len
DoBegin == \E i \in Its \ DOMAIN pos : (\A j \in Its \ DOMAIN pos : i <= j) /\ Begin(i) /\ Rec(<<"begin", i>>)
DoCopy  == \E i \in DOMAIN pos : \E j \in Its \ {i} : CopyIt(i, j) /\ Rec(<<"copy", i, j>>)
DoInc   == \E i \in DOMAIN pos : Inc(i) /\ Rec(<<"inc", i>>)
DoPost  == \E i \in DOMAIN pos : \E j \in Its \ {i} : PostInc(i, j) /\ Rec(<<"post", i, j>>)
Unchanged == \A k \in DOMAIN hist : hist[k][1] \notin {"mut", "set"}
DoMut   == Len(bytes) > 0 /\ Unchanged /\ Mutate(1, 90) /\ Rec(<<"mut", 1, 90>>)
DoSet   == Unchanged /\ Refill(<<90, 17>>) /\ Rec(<<"set">>)
DoSeat  == hist # <<>> /\ (\A k \in DOMAIN hist : hist[k][1] # "seat") /\ Reseat /\ Rec(<<"seat">>)
DoIter  == hist # <<>> /\ hist[Len(hist)][1] # "iter" /\ Iterate(Text) /\ Rec(<<"iter">>)
Init == enc \in GenEncs /\ len \in Lens /\ bytes = [i \in 1..len |-> (37 * i) % 256] /\ pos = <<>> /\ hist = <<>>
Next == DoBegin \/ DoCopy \/ DoInc \/ DoPost \/ DoMut \/ DoSet \/ DoSeat \/ DoIter

\* facts about the definitions (the state only supplies enc and bytes)
SizeOK == Len(Text) = N
RecoverableOK == Decode(enc, Text) = bytes
AlphabetOK == /\ Len(Alphabet(enc)) = P2(Width(enc))
              /\ Cardinality({Alphabet(enc)[i] : i \in DOMAIN Alphabet(enc)}) = P2(Width(enc))
              /\ PadChar \notin {Alphabet(enc)[i] : i \in DOMAIN Alphabet(enc)}
PosOK == \A i \in DOMAIN pos : pos[i] \in 0..N
Dump == Len(hist) = MaxOps => PrintT("H " \o ToJson(<<enc, len, hist>>))
=============================================================================
