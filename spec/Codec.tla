------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The byte-string conversions of pion: base64, URL escapes, XML escapes,  *)
(* big-endian integers and IEEE floating point images.                     *)
(* Strings are plain byte sequences.                                       *)
(***************************************************************************)
EXTENDS Bytes, TLC

(* ------------------------------ base64 --------------------------------- *)
B64Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + (v - 26)
              ELSE IF v < 62 THEN 48 + (v - 52) ELSE IF v = 62 THEN 43 ELSE 47
B64Val(c)  == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 97 + 26
              ELSE IF IsDigit(c) THEN c - 48 + 52 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

B64Encode(s) ==
  LET n == Len(s)
      At(i) == IF i <= n THEN s[i] ELSE 0
      Sextet(g, j) == LET a == At(3*g+1)  b == At(3*g+2)  c == At(3*g+3) IN
           CASE j = 0 -> a \div 4
             [] j = 1 -> (a % 4) * 16 + (b \div 16)
             [] j = 2 -> (b % 16) * 4 + (c \div 64)
             [] j = 3 -> c % 64
      \* the j-th character of group g carries data unless its bits lie past the end
      Real(g, j) == j = 0 \/ j = 1 \/ 3*g + j <= n
  IN [k \in 1..(4 * ((n + 2) \div 3)) |->
        LET g == (k-1) \div 4  j == (k-1) % 4
        IN IF Real(g, j) THEN B64Char(Sextet(g, j)) ELSE EQ]

\* number of padding characters a text ends with (only the last two can be padding)
B64Pads(t) == IF Len(t) >= 2 /\ t[Len(t)] = EQ /\ t[Len(t)-1] = EQ THEN 2
              ELSE IF Len(t) >= 1 /\ t[Len(t)] = EQ THEN 1 ELSE 0
B64WellFormed(t) ==
  /\ Len(t) % 4 = 0
  /\ \A i \in 1..(Len(t) - B64Pads(t)) : B64Val(t[i]) >= 0
B64Bytes(t) ==
  LET p == B64Pads(t)  n == (Len(t) \div 4) * 3 - p
      V(i) == IF i <= Len(t) - p THEN B64Val(t[i]) ELSE 0
  IN [k \in 1..n |-> LET g == (k-1) \div 3  j == (k-1) % 3  a == V(4*g+1)  b == V(4*g+2)  c == V(4*g+3)  d == V(4*g+4) IN
        CASE j = 0 -> a * 4 + (b \div 16)
          [] j = 1 -> (b % 16) * 16 + (c \div 4)
          [] j = 2 -> (c % 4) * 64 + d]
\* the bits of the last character that belong to no byte
B64Canonical(t) == B64Encode(B64Bytes(t)) = t
\* acceptable results of decoding t: (accepted, bytes); a text whose unused bits are not
\* zero may be accepted or refused
B64DecodeOK(t, ok, out) ==
  IF ~B64WellFormed(t) THEN ~ok
  ELSE IF B64Canonical(t) THEN ok /\ out = B64Bytes(t)
  ELSE ok => out = B64Bytes(t)

(* -------------------------------- URL ---------------------------------- *)
\* characters that are never escaped
UrlPlain == {33, 39, 40, 41, 42, 45, 46, 95} \cup (48..57) \cup (65..90) \cup (97..122)
UpHex(v) == IF v < 10 THEN 48 + v ELSE 55 + v
UrlEscape(b) == IF b \in UrlPlain THEN <<b>> ELSE <<PCT, UpHex(b \div 16), UpHex(b % 16)>>
UrlEncode(s) ==
  LET F[i \in 0..Len(s)] == IF i = 0 THEN << >> ELSE F[i-1] \o UrlEscape(s[i]) IN F[Len(s)]

\* a transducer: at position i with the output so far
RECURSIVE UrlDecFrom(_,_,_)
UrlDecFrom(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE IF s[i] = PLUS THEN UrlDecFrom(s, i+1, Append(out, SP))
  ELSE IF s[i] = PCT /\ i + 2 <= Len(s) /\ IsHex(s[i+1]) /\ IsHex(s[i+2]) /\ ~(s[i+1] = 48 /\ s[i+2] = 48)
       THEN UrlDecFrom(s, i+3, Append(out, HexVal(s[i+1]) * 16 + HexVal(s[i+2])))
  ELSE UrlDecFrom(s, i+1, Append(out, s[i]))
UrlDecode(s) == UrlDecFrom(s, 1, << >>)

(* -------------------------------- XML ---------------------------------- *)
Replacement == <<239, 191, 189>>
Cont(b) == b >= 128 /\ b <= 191
\* code point of the well-formed UTF-8 sequence of n bytes at position i of s, or -1
CodePoint(s, i, n) ==
  IF i + n - 1 > Len(s) \/ \E k \in 1..(n-1) : ~Cont(s[i+k]) THEN -1
  ELSE CASE n = 1 -> IF s[i] < 128 THEN s[i] ELSE -1
         [] n = 2 -> IF s[i] \div 32 = 6 THEN LET c == (s[i] % 32) * 64 + (s[i+1] % 64) IN IF c >= 128 THEN c ELSE -1 ELSE -1
         [] n = 3 -> IF s[i] \div 16 = 14 THEN LET c == (s[i] % 16) * 4096 + (s[i+1] % 64) * 64 + (s[i+2] % 64)
                                              IN IF c >= 2048 THEN c ELSE -1 ELSE -1
         [] n = 4 -> IF s[i] \div 8 = 30 THEN LET c == (s[i] % 8) * 262144 + (s[i+1] % 64) * 4096 + (s[i+2] % 64) * 64 + (s[i+3] % 64)
                                              IN IF c >= 65536 THEN c ELSE -1 ELSE -1
\* Char of the XML 1.0 recommendation
XmlChar(c) == c \in {9, 10, 13} \/ (c >= 32 /\ c <= 55295) \/ (c >= 57344 /\ c <= 65533) \/ (c >= 65536 /\ c <= 1114111)
\* length of the valid character at position i, or 0
XmlLen(s, i) ==
  IF s[i] < 128 THEN (IF XmlChar(s[i]) THEN 1 ELSE 0)
  ELSE LET n == IF s[i] >= 240 THEN 4 ELSE IF s[i] >= 224 THEN 3 ELSE IF s[i] >= 192 THEN 2 ELSE 0
       IN IF n = 0 THEN 0 ELSE IF XmlChar(CodePoint(s, i, n)) THEN n ELSE 0
Entity(b) == CASE b = 38 -> <<38,97,109,112,59>>
               [] b = 60 -> <<38,108,116,59>>
               [] b = 62 -> <<38,103,116,59>>
               [] b = 34 -> <<38,113,117,111,116,59>>
               [] b = 39 -> <<38,97,112,111,115,59>>
               [] OTHER  -> <<b>>
Markup == {38, 60, 62, 34, 39}
RECURSIVE XmlEncFrom(_,_,_)
XmlEncFrom(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE LET n == XmlLen(s, i) IN
       CASE n = 0 -> XmlEncFrom(s, i+1, out \o Replacement)
         [] n = 1 -> XmlEncFrom(s, i+1, out \o Entity(s[i]))
         [] OTHER -> XmlEncFrom(s, i+n, out \o SubSeq(s, i, i+n-1))
XmlEncode(s) == XmlEncFrom(s, 1, << >>)

\* the reader's side, used to state the lemmas: undo entities, and recognise well-formed text
RECURSIVE XmlDecFrom(_,_,_)
XmlDecFrom(t, i, out) ==
  IF i > Len(t) THEN out
  ELSE IF t[i] = 38
       THEN LET c == CHOOSE b \in Markup \cup {-1} : \/ b # -1 /\ OccursAt(Entity(b), t, i)
                                                     \/ b = -1 /\ \A x \in Markup : ~OccursAt(Entity(x), t, i)
            IN IF c = -1 THEN << >> ELSE XmlDecFrom(t, i + Len(Entity(c)), Append(out, c))
       ELSE XmlDecFrom(t, i+1, Append(out, t[i]))
XmlDecode(t) == XmlDecFrom(t, 1, << >>)
RECURSIVE AllXmlChars(_,_)
AllXmlChars(s, i) == i > Len(s) \/ (XmlLen(s, i) > 0 /\ AllXmlChars(s, i + XmlLen(s, i)))
NoMarkup(t) == \A i \in 1..Len(t) : /\ t[i] \notin (Markup \ {38})
                                    /\ t[i] = 38 => \E b \in Markup : OccursAt(Entity(b), t, i)

(* --------------------- integers in byte buffers ------------------------ *)
\* numbers are given as eight bytes, most significant first (two's complement)
Low(v, k) == SubSeq(v, 8 - k + 1, 8)
Fill(b, k) == [i \in 1..k |-> b]
\* extend k bytes to eight
ZeroExt(b) == Fill(0, 8 - Len(b)) \o b
SignExt(b) == Fill(IF b[1] >= 128 THEN 255 ELSE 0, 8 - Len(b)) \o b
\* the 24-bit reader delivers its three bytes without sign extension
ReadInt(b, signed) == IF signed /\ Len(b) # 3 THEN SignExt(b) ELSE ZeroExt(b)

(* ----------------------- IEEE floating point --------------------------- *)
\* an image is 4 or 8 bytes, sign first; NaNs are interchangeable
ExpAllOnes(x) == x[1] % 128 = 127 /\ (IF Len(x) = 4 THEN x[2] >= 128 ELSE x[2] >= 240)
FracZero(x)   == (IF Len(x) = 4 THEN x[2] % 128 = 0 ELSE x[2] % 16 = 0) /\ \A i \in 3..Len(x) : x[i] = 0
IsNaN(x) == ExpAllOnes(x) /\ ~FracZero(x)
SameFloat(x, y) == Len(x) = Len(y) /\ (x = y \/ (IsNaN(x) /\ IsNaN(y)))
\* extended precision (sign and exponent in two bytes, then eight bytes with an explicit
\* leading bit) and its quadruple precision image (two bytes, then 112 bits of fraction)
QuadOf(x) == LET M(i) == IF i <= 10 THEN x[i] ELSE 0
             IN <<x[1], x[2]>> \o [i \in 1..14 |-> (M(i+2) % 128) * 2 + (M(i+3) \div 128)]
QuadNaN(q) == q[1] % 128 = 127 /\ q[2] = 255 /\ \E i \in 3..16 : q[i] # 0
SameQuad(x, q) == Len(q) = 16 /\ (q = QuadOf(x) \/ (QuadNaN(QuadOf(x)) /\ QuadNaN(q)))
=============================================================================
