-------------------------------- MODULE Value --------------------------------
(* Digest values: byte strings of a fixed length with a text form, a total  *)
(* order, prefixes and suffixes, and renderings in any of the encodings.    *)
EXTENDS BaseN

HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55
IsHex(t) == \A i \in DOMAIN t : t[i] \in (48..57) \cup (97..102) \cup (65..70)
Parse(t) == [i \in 1..(Len(t) \div 2) |-> (16 * HexVal(t[(2 * i) - 1])) + HexVal(t[2 * i])]
HexText(v) == Encode("base16", v)
UpperCase(t) == [i \in DOMAIN t |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]

Zero(n) == [i \in 1..n |-> 0]
Prefix(v, k) == SubSeq(v, 1, k)
Suffix(v, k) == SubSeq(v, Len(v) - k + 1, Len(v))

\* the first differing byte of the common prefix decides; -1, 0 or 1
Min2(a, b) == IF a < b THEN a ELSE b
Compare(a, b) ==
  LET D == {i \in 1..Min2(Len(a), Len(b)) : a[i] # b[i]}
  IN  IF D = {} THEN 0
      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
\* what the seven comparisons return: ==, !=, <, <=, >, >=, <=>
Verdicts(c) == <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0, c>>

(* Names in format specifications; texts are sequences of character codes *)
LOCAL Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-/ =>"
LOCAL CodeOf == [ch \in {SubSeq(Letters, i, i) : i \in 1..Len(Letters)} |->
                   LET i == CHOOSE i \in 1..Len(Letters) : SubSeq(Letters, i, i) = ch
                   IN  IF i <= 26 THEN 96 + i ELSE IF i <= 52 THEN 38 + i ELSE IF i <= 62 THEN i - 5
                       ELSE <<95, 45, 47, 32, 61, 62>>[i - 62]]
Codes(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
\* documented name or alias -> encoding
NameTable == <<
  <<"base64", "base64">>, <<"base64_no_padding", "base64_no_padding">>,
  <<"base64url", "base64url">>, <<"base64_url", "base64url">>,
  <<"base32", "base32">>, <<"base32_no_padding", "base32_no_padding">>,
  <<"z_base32", "z_base32">>, <<"zbase32", "z_base32">>,
  <<"base16", "base16">>, <<"hexdec", "base16">>, <<"BASE16", "BASE16">>, <<"HEXDEC", "BASE16">>,
  <<"base8", "base8">>, <<"octal", "base8">>, <<"base4", "base4">>, <<"base2", "base2">>, <<"binary", "base2">> >>
NameCodes == [i \in DOMAIN NameTable |-> Codes(NameTable[i][1])]
Select(name, default) ==
  IF name = <<>> THEN default
  ELSE IF \E i \in DOMAIN NameTable : NameCodes[i] = name
       THEN NameTable[CHOOSE i \in DOMAIN NameTable : NameCodes[i] = name][2] ELSE "rejected"

(* What formatting with the format string f gives, every argument being v:  *)
(* the text, or <<-1>> for rejection.  {{ and }} stand for single braces; a *)
(* field is { argument-id? (: name)? }.  (Automatic and explicit numbering  *)
(* are not mixed in f; Args is the number of arguments.)                    *)
Args == 3
LOCAL LB == 123
LOCAL RB == 125
Rejected == <<-1>>
\* a field's inside -> encoding or "rejected"; auto = fields with automatic numbering so far
FieldEnc(g, default, auto) ==
  LET cs == {i \in DOMAIN g : g[i] = 58}
      colon == IF cs = {} THEN Len(g) + 1 ELSE CHOOSE i \in cs : \A j \in cs : i <= j
      id == SubSeq(g, 1, colon - 1)
      name == SubSeq(g, colon + 1, Len(g))
  IN  IF id = <<>> THEN (IF auto < Args THEN Select(name, default) ELSE "rejected")
      ELSE IF Len(id) = 1 /\ id[1] \in 48..(47 + Args) THEN Select(name, default) ELSE "rejected"
RECURSIVE Formatted(_, _, _, _, _, _)
Formatted(f, k, default, v, auto, acc) ==
  IF k > Len(f) THEN acc
  ELSE IF f[k] = LB
    THEN IF k < Len(f) /\ f[k + 1] = LB THEN Formatted(f, k + 2, default, v, auto, Append(acc, LB))
         ELSE LET ends == {j \in (k + 1)..Len(f) : f[j] = RB}
              IN  IF ends = {} THEN Rejected
                  ELSE LET j == CHOOSE j \in ends : \A m \in ends : j <= m
                           e == FieldEnc(SubSeq(f, k + 1, j - 1), default, auto)
                       IN  IF e = "rejected" THEN Rejected
                           ELSE Formatted(f, j + 1, default, v, auto + 1, acc \o Encode(e, v))
  ELSE IF f[k] = RB
    THEN IF k < Len(f) /\ f[k + 1] = RB THEN Formatted(f, k + 2, default, v, auto, Append(acc, RB)) ELSE Rejected
  ELSE Formatted(f, k + 1, default, v, auto, Append(acc, f[k]))
Format(f, default, v) == Formatted(f, 1, default, v, 0, <<>>)
=============================================================================
