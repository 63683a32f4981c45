---------------------------- MODULE HashBigTrace ----------------------------
(* Conformance for messages far too long to be absorbed block by block in   *)
(* TLC.  Three exact laws decide their digests:                             *)
(*  - known answers (BigKat);                                               *)
(*  - length extension: for a Merkle-Damgard hash without truncation,       *)
(*      H(m \o Pad(|m|) \o t) = Digest of t from the chaining value H(m),   *)
(*    so the digest of the extended message determines whether the code     *)
(*    padded m with m's exact length;                                       *)
(*  - a stripe that leaves the xxHash accumulators fixed may be repeated    *)
(*    any number of times and only the length changes.                      *)
EXTENDS HashAlg, BigKat, Json, IOUtils, FiniteSetsExt

Sessions == JsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES s, l
vars == <<s, l>>
Ev == Sessions[s][l]
Is(name) == l <= Len(Sessions[s]) /\ Ev[1] = name /\ l' = l + 1 /\ UNCHANGED s

\* ["kat", name, param, n, digest]
DoKat == Is("kat") /\ <<Ev[2], Ev[3], Ev[4], Ev[5]>> \in BigKats
\* ["size", n, reported]
DoSize == Is("size") /\ Ev[2] = Ev[3]

LOCAL Chain(name, d) ==
  IF name = "sha256" THEN [i \in 1..8 |-> LET o == 4 * (i - 1) IN <<d[o+4] + 256 * d[o+3], d[o+2] + 256 * d[o+1]>>]
  ELSE [i \in 1..8 |-> LET o == 8 * (i - 1) IN <<d[o+8] + 256 * d[o+7], d[o+6] + 256 * d[o+5], d[o+4] + 256 * d[o+3], d[o+2] + 256 * d[o+1]>>]
\* ["lext", name, n, H(m), pad, t, H(m \o pad \o t)]   with n = |m|
DoLext ==
  /\ Is("lext") /\ Ev[2] \in {"sha256", "sha512"}
  /\ LET a == <<Ev[2], 0>>  B == BlockSize(a)  n == Ev[3]  pad == Ev[5]
     IN  /\ pad = PadSha2(B, n[1] % B, n)
         /\ Len(Ev[4]) = DigestLen(a)
         /\ Digest(Feed([alg |-> a, st |-> Chain(Ev[2], Ev[4]), tail |-> <<>>, tot |-> Add64(n, W64(Len(pad)))], Ev[6]), 0) = Ev[7]

\* w * 2^k for the repetition count
RECURSIVE Dbl(_, _)
LOCAL Dbl(w, k) == IF k = 0 THEN w ELSE Dbl(Add64(w, w), k - 1)
\* ["xrep", name, seed, stripe, count, tail, digest]: count copies of the stripe and the tail
DoXrep ==
  /\ Is("xrep") /\ Ev[2] \in Xx
  /\ LET a == <<Ev[2], Ev[3]>>  c == New(a)  B == BlockSize(a)
     IN  /\ Len(Ev[4]) = B
         /\ AbsorbBlock(a, c.st, Ev[4]) = c.st
         /\ Digest(Feed([c EXCEPT !.tot = Dbl(Ev[5], IF B = 16 THEN 4 ELSE 5)], Ev[6]), 0) = Ev[7]

Init == s \in DOMAIN Sessions /\ l = 1
Done == l > Len(Sessions[s]) /\ UNCHANGED vars
Next == DoKat \/ DoSize \/ DoLext \/ DoXrep \/ Done
TypeOK == l >= 1
=============================================================================
