------------------------------ MODULE CodecMC ------------------------------
(* The lemmas behind P12 to P14, checked for every string over an alphabet of  *)
(* critical bytes up to a length: a peer builds the string byte by byte.       *)
EXTENDS Codec
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = << >>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s
B64RoundTrip == LET t == B64Encode(s) IN B64WellFormed(t) /\ B64Canonical(t) /\ B64Bytes(t) = s /\ Len(t) % 4 = 0
\* whatever is accepted as canonical text is the encoding of what it decodes to
B64Unique    == (B64WellFormed(s) /\ B64Canonical(s)) => B64Encode(B64Bytes(s)) = s
B64Refuses   == B64WellFormed(s) => Len(s) % 4 = 0 /\ \A i \in 1..Len(s) : s[i] = EQ => i > Len(s) - 2
HasNul == \E i \in 1..Len(s) : s[i] = 0
UrlSafe      == \A i \in 1..Len(UrlEncode(s)) : UrlEncode(s)[i] \in UrlPlain \cup {PCT}
UrlRoundTrip == ~HasNul => UrlDecode(UrlEncode(s)) = s
UrlShrinks   == Len(UrlDecode(s)) <= Len(s)
XmlWellFormed == LET t == XmlEncode(s) IN NoMarkup(t) /\ AllXmlChars(t, 1)
XmlPreserves == AllXmlChars(s, 1) => XmlDecode(XmlEncode(s)) = s
\* valid text after any (malformed) string is kept
XmlResync    == \A b \in {65, 32} : XmlEncode(Append(s, b)) = Append(XmlEncode(s), b)
=============================================================================
