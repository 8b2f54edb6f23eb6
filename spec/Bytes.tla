------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings.  A byte is a number 0..255.  Two representations:         *)
(*   - plain: a sequence of bytes                                          *)
(*   - runs:  a sequence of <<byte, count>> with no two equal neighbours,  *)
(*            used where strings may be a megabyte long (limits)           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Byte == 0..255
CR == 13   LF == 10   SP == 32   HT == 9
COLON == 58   SLASH == 47   QMARK == 63   DOT == 46   SEMI == 59   COMMA == 44
EQ == 61   AMP == 38   PLUS == 43   PCT == 37   DASH == 45   DQUOTE == 34   SQUOTE == 39   DOLLAR == 36

IsDigit(b)   == b >= 48 /\ b <= 57
IsUpper(b)   == b >= 65 /\ b <= 90
IsLower(b)   == b >= 97 /\ b <= 122
IsAlpha(b)   == IsUpper(b) \/ IsLower(b)
IsHex(b)     == IsDigit(b) \/ (b >= 97 /\ b <= 102) \/ (b >= 65 /\ b <= 70)
IsControl(b) == b <= 31 \/ b = 127
IsChar(b)    == b <= 127
Specials     == {40,41,60,62,64,44,59,58,92,34,47,91,93,63,61,123,125,32,9}
IsSpecial(b) == b \in Specials
\* a character that may occur in a method or a header name
IsToken(b)   == IsChar(b) /\ ~IsControl(b) /\ ~IsSpecial(b)
ToLower(b)   == IF IsUpper(b) THEN b + 32 ELSE b
HexVal(b)    == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55

MaxInt == 2147483647

(* ------------------------------ runs ----------------------------------- *)
REmpty == << >>
RPushN(r, b, n) ==
  IF n = 0 THEN r
  ELSE IF Len(r) > 0 /\ r[Len(r)][1] = b
       THEN [r EXCEPT ![Len(r)] = <<b, @[2] + n>>]
       ELSE Append(r, <<b, n>>)
RPush(r, b) == RPushN(r, b, 1)

RECURSIVE RLenFrom(_,_)
RLenFrom(r, i) == IF i > Len(r) THEN 0 ELSE r[i][2] + RLenFrom(r, i+1)
RLen(r) == RLenFrom(r, 1)

RECURSIVE RConcatFrom(_,_,_)
RConcatFrom(a, b, i) == IF i > Len(b) THEN a ELSE RConcatFrom(RPushN(a, b[i][1], b[i][2]), b, i+1)
RConcat(a, b) == IF b = REmpty THEN a ELSE IF a = REmpty THEN b
                 ELSE RPushN(a, b[1][1], b[1][2]) \o Tail(b)

\* first n bytes
RECURSIVE RTakeFrom(_,_,_,_)
RTakeFrom(r, n, i, acc) ==
  IF n = 0 \/ i > Len(r) THEN acc
  ELSE IF r[i][2] >= n THEN Append(acc, <<r[i][1], n>>)
  ELSE RTakeFrom(r, n - r[i][2], i+1, Append(acc, r[i]))
RTake(r, n) == RTakeFrom(r, n, 1, << >>)

RLower(r) == \* lower-cased; may merge neighbours
  LET F[i \in 0..Len(r)] == IF i = 0 THEN << >> ELSE RPushN(F[i-1], ToLower(r[i][1]), r[i][2])
  IN F[Len(r)]

\* expansion of a (short) run string
RExpand(r) ==
  LET F[i \in 0..Len(r)] == IF i = 0 THEN << >> ELSE F[i-1] \o [k \in 1..r[i][2] |-> r[i][1]]
  IN F[Len(r)]
RCompress(s) ==
  LET F[i \in 0..Len(s)] == IF i = 0 THEN << >> ELSE RPush(F[i-1], s[i])
  IN F[Len(s)]

(* ------------------------------ plain ---------------------------------- *)
SLower(s) == [i \in 1..Len(s) |-> ToLower(s[i])]
\* does s occur in t at position i (1-based)?
OccursAt(s, t, i) == i + Len(s) - 1 <= Len(t) /\ \A k \in 1..Len(s) : t[i+k-1] = s[k]
\* least position >= from where s occurs in t, or 0
FindFrom(s, t, from) ==
  LET S == {i \in from..(Len(t) - Len(s) + 1) : OccursAt(s, t, i)}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
StartsWith(t, s) == Len(t) >= Len(s) /\ \A k \in 1..Len(s) : t[k] = s[k]

\* a sequence as a bag (for the unordered multimaps)
BagOf(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SameBag(a, b) == Len(a) = Len(b) /\ (a = b \/ BagOf(a) = BagOf(b))
=============================================================================
