------------------------------- MODULE CliTrace -------------------------------
(* Recorded runs of the real tools on real files are a behaviour of Cli.    *)
EXTENDS Cli, ZeroKat, PatKat, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<files, s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s
DoWrite == Is("write") /\ Write(Ev[2], Ev[3])
DoExtend == Is("extend") /\ Extend(Ev[2], Ev[3])
DoTruncate == Is("truncate") /\ Truncate(Ev[2], Ev[3])
DoDeny == Is("deny") /\ Deny(Ev[2])
DoMakeDir == Is("mkdir") /\ MakeDir(Ev[2])
DoRemove == Is("remove") /\ Unlink(Ev[2])
\* ["checksum", arguments, exit status, standard output]
DoChecksum == Is("checksum") /\ Checksum(Ev[2], Ev[3], Ev[4])
\* ["example", arguments, exit status, lines]
DoExample == Is("example") /\ Example(Ev[2], Ev[3], Ev[4])
\* ["zeros", name, n (64-bit word), exit status, standard output]: a file of n zero
\* bytes, too large to absorb in TLC: known answers
DoZeros == Is("zeros") /\ Ev[4] = 0 /\ UNCHANGED files
           /\ \E k \in ZeroKats : V!Codes(k[1]) = Ev[2] /\ k[2] = Ev[3] /\ Ev[5] = Append(V!HexText(k[3]), 10)
\* ["pattern", name, n, exit status, standard output]: a file of the first n bytes
\* of the pattern of PatKat
DoPattern == Is("pattern") /\ Ev[4] = 0 /\ UNCHANGED files
             /\ \E k \in PatKats : k[2] = Ev[3] /\ V!Codes(k[1]) = Ev[2] /\ Ev[5] = Append(V!HexText(k[3]), 10)
Init == s \in DOMAIN Sessions /\ l = 1 /\ files = <<>>
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoWrite \/ DoExtend \/ DoTruncate \/ DoDeny \/ DoMakeDir \/ DoRemove \/ DoChecksum \/ DoExample \/ DoZeros \/ DoPattern \/ Done
TypeOK == \A f \in DOMAIN files : files[f][1] \in {"bytes", "denied", "directory"}
=============================================================================
