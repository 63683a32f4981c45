------------------------------- MODULE ValueMC -------------------------------
(* Facts about the definitions of Value, over all small byte strings:       *)
(* each state is a triple of them.                                          *)
EXTENDS Value
CONSTANTS Bytes, MaxLen
VARIABLES x, y, z
Strings == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Init == x \in Strings /\ y \in Strings /\ z \in Strings /\ Len(x) = Len(z)
Next == FALSE /\ UNCHANGED <<x, y, z>>
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* equal lengths: a total order whose equality is identity
Same == Len(x) = Len(y)
TotalOrder ==
  Same => /\ (Compare(x, y) = 0) <=> (x = y)
          /\ Compare(x, y) = -Compare(y, x)
          /\ (Compare(x, y) <= 0 /\ Compare(y, z) <= 0) => Compare(x, z) <= 0
          /\ Verdicts(Compare(x, y))[1] = ~ Verdicts(Compare(x, y))[2]
\* different lengths (SHAKE): equality is being a prefix
PrefixEq ==
  /\ Compare(x, y) = -Compare(y, x)
  /\ (Compare(x, y) = 0) <=> (\E k \in {Min2(Len(x), Len(y))} : Prefix(x, k) = Prefix(y, k))
  /\ \A k \in 0..Len(x) : Compare(x, Prefix(x, k)) = 0
\* the order does not change when both strings get the same prefix
Stable == Same => Compare(z \o x, z \o y) = Compare(x, y)
\* text
RoundTrip == /\ Parse(HexText(x)) = x /\ Parse(UpperCase(HexText(x))) = x
             /\ Len(HexText(x)) = 2 * Len(x)
             /\ (HexText(x) = HexText(y)) => x = y
Splits == \A k \in 0..Len(x) : Prefix(x, k) \o Suffix(x, Len(x) - k) = x
=============================================================================
