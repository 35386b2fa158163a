------------------------------ MODULE MCMoney ------------------------------
(* Texts of amounts, all of them up to some number of pieces: one is read  *)
(* when it can be understood in just one way.                              *)
EXTENDS Money, TLC, Json, IOUtils, FiniteSets

CONSTANTS Pieces,    \* the pieces of amounts
          Longest    \* how many

\* values for the constants
Digit1 == <<49>>
Marks4 == {<<46>>, <<44>>, <<39>>, <<95>>}
PiecesChars == {<<49>>, <<48>>, <<46>>, <<44>>, <<39>>, <<45>>, <<43>>}
PiecesGroups == {<<49>>, <<48, 48, 48>>, <<50, 51, 52>>, <<46>>, <<44>>, <<45>>, <<49, 50, 51, 52, 53, 54, 55>>, <<57, 57>>}
PiecesLong == {<<57, 57, 57>>, <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54>>, <<56, 53, 52, 55, 55, 53, 56, 48, 55>>, <<56>>, <<46>>, <<44>>, <<48>>}
EnvLongest == atoi(IOEnv.LONGEST)

VARIABLES n, text
vars == <<n, text>>
Init == n = 0 /\ text = <<>>
Next == n < Longest /\ n' = n + 1 /\ \E p \in Pieces : text' = text \o p
Spec == Init /\ [][Next]_vars

\* what a currency may use already (0: not known)
LOCAL M(t, d) == [thou |-> t, dec |-> d, prec |-> 2]
MarkSets == {M(0, 0), M(0, 46), M(0, 44), M(46, 44), M(44, 46), M(39, 46), M(0, 39)}

-----------------------------------------------------------------------------
(* The readings of a text without sign, given the marks: groups of digits  *)
(* between marks.                                                          *)
LOCAL AllMarks == {46, 44, 39, 95}
RECURSIVE Digital(_)
LOCAL Digital(s) == s = <<>> \/ (IsDigit(s[1]) /\ Digital(Tail(s)))
\* thousands: the first group of one to three digits, and the others of three
LOCAL Grouped(s, t) ==
  LET g == SplitBy(s, t) IN
  /\ \A i \in DOMAIN g : Digital(g[i]) /\ Len(g[i]) > 0
  /\ Len(g) > 1 => Len(g[1]) <= 3 /\ \A i \in 2..Len(g) : Len(g[i]) = 3
\* [ok, digits, decimals]
LOCAL No == [ok |-> FALSE]
LOCAL Reading(s, t, d) ==
  LET p   == IF d = 0 THEN 0 ELSE Find(s, d, 1)
      int == IF p = 0 THEN s ELSE Upto(s, p - 1)
      dec == IF p = 0 THEN <<>> ELSE From(s, p + 1)
  IN IF /\ IF t = 0 THEN Digital(int) /\ int # <<>> ELSE Grouped(int, t)
        /\ Digital(dec) /\ (p # 0 => dec # <<>>) /\ Len(dec) <= 8
     THEN [ok |-> TRUE, digits |-> SelectSeq(int, IsDigit) \o dec \o [i \in 1..8 - Len(dec) |-> 48]]
     ELSE No
Body(s) == IF s[1] \in {43, 45} THEN Tail(s) ELSE s
\* the marks that a currency may turn out to have, given those that it has
Possible(m) == {td \in (AllMarks \cup {0}) \X (AllMarks \cup {0}) :
                  /\ td[1] # td[2] \/ td[1] = 0
                  /\ (m.thou # 0 => td[1] = m.thou) /\ (m.dec # 0 => td[2] = m.dec)}
Amounts(s, m) == {FromDigits(r.digits) : r \in {x \in {Reading(Body(s), td[1], td[2]) : td \in Possible(m)} : x.ok}}
Signed(s, a) == IF s[1] = 45 THEN Neg(a) ELSE a

Right == \A m \in MarkSets :
  text # <<>> =>
  LET r == ReadAmount(text, m)
      a == Amounts(text, m)
  IN /\ r.ok => \E x \in a : r.amt = Signed(text, x) /\ InInt64(r.amt)
     /\ r.ok => Cardinality(a) = 1
     /\ Cardinality(a) = 1 => (LET x == CHOOSE x \in a : TRUE IN r.ok \/ ~Le(x, Max64) \/ IsZero(x))
     /\ r.ok => /\ r.marks.dec # 0 /\ r.marks.dec # r.marks.thou
                /\ (m.dec # 0 => r.marks.dec = m.dec) /\ (m.thou # 0 => r.marks.thou = m.thou)
\* What was read is printed in the same style, and read back
Back == \A m \in MarkSets :
  text # <<>> =>
  LET r == ReadAmount(text, m) IN
  r.ok => LET cu == [name |-> <<>>, before |-> FALSE, nospace |-> FALSE, thou |-> IF r.marks.thou = 0 THEN <<>> ELSE <<r.marks.thou>>,
                     dec |-> <<r.marks.dec>>, prec |-> r.marks.prec]
              again == ReadAmount(ShowNumber(r.amt, cu, TRUE), r.marks)
          IN again.ok /\ again.amt = r.amt /\ again.marks = r.marks
\* (an invariant that writes every text)
Printed == text # <<>> => PrintT(<<"@@", ToJson(text)>>)
=============================================================================
