--------------------------------- MODULE Cli ---------------------------------
(* The command-line tools over a small file system.                         *)
(* files maps a name to its state: <<"bytes", content>>, <<"denied">>, or    *)
(* <<"directory">>; a name that is not mapped does not exist.                *)
EXTENDS HashAlg
V == INSTANCE Value
VARIABLE files

\* the names the checksum tool knows: name, algorithm, parameter, digest bytes
LOCAL ShakeLens == <<<<"32", 4>>, <<"64", 8>>, <<"128", 16>>, <<"256", 32>>, <<"512", 64>>, <<"1024", 128>>, <<"2048", 256>>>>
Known ==
  <<<<"sha-224", "sha224", 0, 28>>, <<"sha-256", "sha256", 0, 32>>, <<"sha-384", "sha384", 0, 48>>, <<"sha-512", "sha512", 0, 64>>,
    <<"sha-512/224", "sha512t", 224, 28>>, <<"sha-512/256", "sha512t", 256, 32>>,
    <<"sha3-224", "sha3_224", 0, 28>>, <<"sha3-256", "sha3_256", 0, 32>>, <<"sha3-384", "sha3_384", 0, 48>>, <<"sha3-512", "sha3_512", 0, 64>>,
    <<"xxhash32", "xxh32", <<0, 0>>, 4>>, <<"xxhash64", "xxh64", <<0, 0, 0, 0>>, 8>>>>
  \o [i \in 1..7 |-> <<"shake-128/" \o ShakeLens[i][1], "shake128", 0, ShakeLens[i][2]>>]
  \o [i \in 1..7 |-> <<"shake-256/" \o ShakeLens[i][1], "shake256", 0, ShakeLens[i][2]>>]
KnownCodes == [i \in DOMAIN Known |-> V!Codes(Known[i][1])]

(* checksum NAME FILE *)
Succeeds(args) ==
  /\ Len(args) >= 2
  /\ \E i \in DOMAIN Known : KnownCodes[i] = args[1]
  /\ args[2] \in DOMAIN files /\ files[args[2]][1] = "bytes"
Entry(name) == Known[CHOOSE i \in DOMAIN Known : KnownCodes[i] = name]
Expected(args) ==
  LET e == Entry(args[1]) IN V!HexText(HashOf(<<e[2], e[3]>>, files[args[2]][2], e[4]))
\* a line of at least eight lowercase hexadecimal digits
LOCAL HexDigit == (48..57) \cup (97..102)
NoDigest(out) == ~ \E i \in 1..(Len(out) - 7) : \A j \in i..(i + 7) : out[j] \in HexDigit
Checksum(args, exit, out) ==
  /\ UNCHANGED files
  /\ \/ /\ Succeeds(args)
        /\ exit = 0 /\ \E t \in {Expected(args)} : out \in {t, Append(t, 10)}
     \* further arguments: the tool may refuse them, it may not print anything else for them
     \/ (~Succeeds(args) \/ Len(args) > 2) /\ exit # 0 /\ NoDigest(out)

(* example TEXT: a line "label = digest" for every algorithm *)
Lines ==
  <<<<"sha224", "sha224", 0, 28, "base16">>, <<"sha256", "sha256", 0, 32, "base16">>, <<"sha384", "sha384", 0, 48, "base16">>, <<"sha512", "sha512", 0, 64, "base16">>,
    <<"sha512/224", "sha512t", 224, 28, "base16">>, <<"sha512/256", "sha512t", 256, 32, "base16">>,
    <<"sha3-224", "sha3_224", 0, 28, "base16">>, <<"sha3-256", "sha3_256", 0, 32, "base16">>, <<"sha3-384", "sha3_384", 0, 48, "base64url">>, <<"sha3-512", "sha3_512", 0, 64, "base64url">>,
    <<"shake-128/64", "shake128", 0, 8, "base64url">>, <<"shake-128/128", "shake128", 0, 16, "base64url">>, <<"shake-128/1024", "shake128", 0, 128, "base64url">>,
    <<"shake-256/64", "shake256", 0, 8, "base64url">>, <<"shake-256/128", "shake256", 0, 16, "base64url">>, <<"shake-256/1024", "shake256", 0, 128, "base64url">>,
    <<"xxhash32", "xxh32", <<0, 0>>, 4, "base16">>, <<"xxhash64", "xxh64", <<0, 0, 0, 0>>, 8, "base16">>>>
LineCodes == [i \in DOMAIN Lines |-> V!Codes(Lines[i][1])]
\* printed = the lines, cut into label and text
Example(args, exit, printed) ==
  /\ UNCHANGED files
  /\ IF Len(args) = 0 THEN exit # 0 /\ printed = <<>>
     ELSE /\ exit = 0
          /\ Len(printed) = Len(Lines)
          /\ \A i \in DOMAIN Lines :
               /\ printed[i][1] = LineCodes[i]
               /\ printed[i][2] = V!Encode(Lines[i][5], HashOf(<<Lines[i][2], Lines[i][3]>>, args[1], Lines[i][4]))

(* what happens to files between runs *)
Put(f, st) == files' = [x \in DOMAIN files \cup {f} |-> IF x = f THEN st ELSE files[x]]
Write(f, bs) == Put(f, <<"bytes", bs>>)
Extend(f, bs) == files[f][1] = "bytes" /\ Put(f, <<"bytes", files[f][2] \o bs>>)
Truncate(f, n) == files[f][1] = "bytes" /\ n <= Len(files[f][2]) /\ Put(f, <<"bytes", SubSeq(files[f][2], 1, n)>>)
Deny(f) == Put(f, <<"denied">>)
MakeDir(f) == Put(f, <<"directory">>)
Unlink(f) == f \in DOMAIN files /\ files' = [x \in DOMAIN files \ {f} |-> files[x]]
=============================================================================
