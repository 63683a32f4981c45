------------------------------ MODULE ValueTrace ------------------------------
(* Recorded uses of the real digest values are what Value prescribes.       *)
EXTENDS Value, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s
\* ["parse", how, text, result]
DoParse == Is("parse") /\ IsHex(Ev[3]) /\ Len(Ev[3]) % 2 = 0 /\ Ev[4] = Parse(Ev[3])
\* ["zero", how, n, result]
DoZero == Is("zero") /\ Ev[4] = Zero(Ev[3])
\* ["print", how, encoding, bytes, text]
DoPrint == Is("print") /\ Ev[3] \in EncNames /\ Ev[5] = Encode(Ev[3], Ev[4])
\* ["cmp", type, a, b, verdicts]: values of one type
DoCmp == Is("cmp") /\ Len(Ev[3]) = Len(Ev[4]) /\ Ev[5] = Verdicts(Compare(Ev[3], Ev[4]))
\* ["xcmp", function, a, b, verdicts]: SHAKE values of any lengths
DoXCmp == Is("xcmp") /\ Ev[5] = Verdicts(Compare(Ev[3], Ev[4]))
\* ["prefixes", bytes, lengths, results]: results[i] is the prefix of lengths[i] bytes
DoPrefixes == Is("prefixes") /\ DOMAIN Ev[4] = DOMAIN Ev[3] /\ \A i \in DOMAIN Ev[3] : Ev[4][i] = Prefix(Ev[2], Ev[3][i])
DoSuffixes == Is("suffixes") /\ DOMAIN Ev[4] = DOMAIN Ev[3] /\ \A i \in DOMAIN Ev[3] : Ev[4][i] = Suffix(Ev[2], Ev[3][i])
\* ["format", how, default encoding, format string, bytes, text or rejection]
DoFormat == Is("format") /\ Ev[6] = Format(Ev[4], Ev[3], Ev[5])
\* ["fmtview", how, encoding, format string, bytes, text or rejection]: an encoded
\* view has no encoding names of its own: only the empty specification is known
DoFmtView == Is("fmtview")
             /\ Ev[6] = (IF \E i \in DOMAIN Ev[4] : Ev[4][i] = 58 /\ Ev[4][i + 1] # 125 THEN Rejected ELSE Format(Ev[4], Ev[3], Ev[5]))
\* ["takes", how, default encoding, name, whether a format string with it compiles]
DoTakes == Is("takes") /\ Ev[5] = (Select(Ev[4], Ev[3]) # "rejected")
\* ["fseq", how, encoding, a, b, text, verdicts]: the fixed string of a against that
\* of b, against a text, and against the text up to its first zero
Cut(t) == LET Z == {i \in DOMAIN t : t[i] = 0}
          IN  IF Z = {} THEN t ELSE LET i == CHOOSE i \in Z : \A j \in Z : i <= j IN SubSeq(t, 1, i - 1)
DoFseq == /\ Is("fseq")
          /\ LET x == Encode(Ev[3], Ev[4])
                 y == Encode(Ev[3], Ev[5])
             IN  Ev[7] = <<x = y, x # y, x = Ev[6], x = Ev[6], x # Ev[6], x = Cut(Ev[6]), x = Cut(Ev[6])>>
Init == s \in DOMAIN Sessions /\ l = 1
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoParse \/ DoZero \/ DoPrint \/ DoCmp \/ DoXCmp \/ DoPrefixes \/ DoSuffixes \/ DoFormat \/ DoFmtView \/ DoTakes \/ DoFseq \/ Done
TypeOK == l \in 1..(Len(Sessions[s]) + 1)
=============================================================================
