------------------------------- MODULE Text -------------------------------
(* Text is a sequence of bytes (numbers 0..255).                           *)
EXTENDS Integers, Sequences

IsSpace(b) == b \in {9, 10, 11, 12, 13, 32}
IsDigit(b) == b \in 48..57
IsLower(b) == b \in 97..122

RECURSIVE FirstNonSpace(_, _)
LOCAL FirstNonSpace(s, i) == IF i > Len(s) \/ ~IsSpace(s[i]) THEN i ELSE FirstNonSpace(s, i + 1)
RECURSIVE LastNonSpace(_, _)
LOCAL LastNonSpace(s, i) == IF i = 0 \/ ~IsSpace(s[i]) THEN i ELSE LastNonSpace(s, i - 1)
Trim(s) == SubSeq(s, FirstNonSpace(s, 1), LastNonSpace(s, Len(s)))

From(s, i) == SubSeq(s, i, Len(s))       \* s[i..]
Upto(s, i) == SubSeq(s, 1, i)            \* s[..i]

\* position of the first byte b at or after i, or 0
RECURSIVE Find(_, _, _)
Find(s, b, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = b THEN i ELSE Find(s, b, i + 1)

\* position of the last byte b, or 0
RECURSIVE FindLastAt(_, _, _)
LOCAL FindLastAt(s, b, i) == IF i = 0 THEN 0 ELSE IF s[i] = b THEN i ELSE FindLastAt(s, b, i - 1)
FindLast(s, b) == FindLastAt(s, b, Len(s))

\* position of the first place at or after i where b is twice in a row, or 0
RECURSIVE FindTwice(_, _, _)
FindTwice(s, b, i) ==
  IF i >= Len(s) THEN 0 ELSE IF s[i] = b /\ s[i + 1] = b THEN i ELSE FindTwice(s, b, i + 1)

Has(s, S) == \E i \in DOMAIN s : s[i] \in S

\* the text up to the first ' ' (if it is not the first byte), and the rest, trimmed
FirstWord(s) ==
  LET i == Find(s, 32, 1) IN
  IF i > 1 THEN [word |-> Upto(s, i - 1), rest |-> Trim(From(s, i + 1))]
  ELSE [word |-> s, rest |-> <<>>]

\* fields separated by b
RECURSIVE SplitBy(_, _)
SplitBy(s, b) ==
  LET i == Find(s, b, 1) IN
  IF i = 0 THEN <<s>> ELSE <<Upto(s, i - 1)>> \o SplitBy(From(s, i + 1), b)

RECURSIVE JoinWith(_, _)
JoinWith(f, sep) ==
  IF f = <<>> THEN <<>> ELSE IF Len(f) = 1 THEN f[1] ELSE f[1] \o sep \o JoinWith(Tail(f), sep)

AllDigits(s) == \A i \in DOMAIN s : IsDigit(s[i])

LowerByte(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(s) == [i \in DOMAIN s |-> LowerByte(s[i])]

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE ContainsAt(_, _, _)
LOCAL ContainsAt(s, t, i) ==
  IF i + Len(t) - 1 > Len(s) THEN FALSE
  ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN TRUE ELSE ContainsAt(s, t, i + 1)
Contains(s, t) == ContainsAt(s, t, 1)

\* small decimal number
RECURSIVE SmallNum(_)
SmallNum(s) == IF s = <<>> THEN 0 ELSE 10 * SmallNum(Upto(s, Len(s) - 1)) + (s[Len(s)] - 48)

\* less than, byte by byte
RECURSIVE LessAt(_, _, _)
LOCAL LessAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessAt(a, b, i + 1)
Less(a, b) == LessAt(a, b, 1)
=============================================================================
