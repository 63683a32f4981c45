---------------------------- MODULE ChunkViewGen ----------------------------
(* Enumerates histories of iterator operations of chunk views for replay,    *)
(* and checks what a regrouping must satisfy.                                *)
EXTENDS ChunkView, Json
CONSTANTS Its, MaxOps, Lens, Pars
VARIABLES hist
vars == <<par, bytes, pos, hist>>
Rec(e) == Len(hist) < MaxOps /\ hist' = Append(hist, e)
DoBegin == \E i \in Its \ DOMAIN pos : (\A j \in Its \ DOMAIN pos : i <= j) /\ Begin(i) /\ Rec(<<"begin", i>>)
DoCopy  == \E i \in DOMAIN pos : \E j \in Its \ {i} : CopyIt(i, j) /\ Rec(<<"copy", i, j>>)
DoInc   == \E i \in DOMAIN pos : Inc(i) /\ Rec(<<"inc", i>>)
DoPost  == \E i \in DOMAIN pos : \E j \in Its \ {i} : PostInc(i, j) /\ Rec(<<"post", i, j>>)
Unchanged == \A k \in DOMAIN hist : hist[k][1] \notin {"mut", "set"}
DoSet   == Unchanged /\ Refill([x \in 1..(2 * (par[1] \div 8)) |-> 90 + x]) /\ Rec(<<"set">>)
DoMut   == Len(bytes) > 0 /\ Unchanged /\ Mutate(1, [x \in 1..(par[1] \div 8) |-> 90]) /\ Rec(<<"mut">>)
DoSeat  == hist # <<>> /\ hist[Len(hist)][1] # "seat" /\ Reseat /\ Rec(<<"seat">>)
DoIter  == hist # <<>> /\ hist[Len(hist)][1] # "iter" /\ Iterate(All) /\ Rec(<<"iter">>)
Init == par \in Pars /\ (\E n \in Lens : bytes = [i \in 1..(n * (par[1] \div 8)) |-> (37 * i) % 256]) /\ pos = <<>> /\ hist = <<>>
Next == DoBegin \/ DoCopy \/ DoInc \/ DoPost \/ DoMut \/ DoSet \/ DoSeat \/ DoIter

SizeOK == Len(All) = N
\* every source bit is there, in order, and every other bit is a zero that is announced as fill
BitsOK == LET out == par[2]
              bit(k) == (All[(k \div out) + 1][1] \div P2(out - 1 - (k % out))) % 2
          IN  /\ out < 31 => \A k \in 0..((N * out) - 1) : bit(k) = SrcBit(bytes, 8, k)
              /\ FoldLeft(LAMBDA a, c : a + out - c[2], 0, All) = 8 * Len(bytes)
PosOK == \A i \in DOMAIN pos : pos[i] \in 0..N
Dump == Len(hist) = MaxOps => PrintT("H " \o ToJson(hist))
=============================================================================
