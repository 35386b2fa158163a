------------------------------- MODULE TextDB -----------------------------
(* How a text database (its files of accounts and transactions) is read.   *)
(* The state of the reader is a record T:                                  *)
(*   accts  accounts in order: [id, name, parent, code]; parent is a       *)
(*          position, or 0                                                 *)
(*   txns   the transactions that have ended, as in Journal                *)
(*   posts  the postings of the one that has not, and time and desc of it  *)
(*   sum    what the amounts of posts sum                                  *)
(* The accounts of postings are positions in accts.                        *)
EXTENDS Integers, Sequences, Text, BigNum, Calendar

EmptyTextDB == [accts |-> <<>>, txns |-> <<>>, posts |-> <<>>, time |-> NoDate, desc |-> <<>>, sum |-> Zero]

LOCAL Colon == 58
LOCAL Plus == 43
LOCAL Minus == 45
LOCAL Unsigned(s) == IF s # <<>> /\ s[1] \in {Plus, Minus} THEN Tail(s) ELSE s
LOCAL Signed(s, n) == IF s # <<>> /\ s[1] = Minus THEN Neg(n) ELSE n

\* <<>>, or <<a number>>
Whole(s) ==
  LET d == Unsigned(s) n == Signed(s, FromDigits(d)) IN
  IF d = <<>> \/ ~AllDigits(d) \/ ~InInt64(n) THEN <<>> ELSE <<n>>

\* A number with decimals, without sign: the set of amounts nearest to it in hundredths, {} if it is none
LOCAL Cent == Num(1000000)
LOCAL Limit == Mul(FromDigits(<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56>>), U)   \* 92233720368
RECURSIVE Zeros(_)
LOCAL Zeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)
Hundredths(s) ==
  LET f    == SplitBy(s, 46)
      frac == IF Len(f) = 2 THEN f[2] ELSE <<>>
      all  == f[1] \o frac \o Zeros(2 - Len(frac))
      more == IF Len(frac) > 2 THEN Len(frac) - 2 ELSE 0        \* decimals after the hundredths
      low  == FromDigits(Upto(all, Len(all) - more))
      rest == From(all, Len(all) - more + 1)
      half == <<53>> \o Zeros(more - 1)
      ns   == IF more = 0 \/ Less(rest, half) THEN {low} ELSE IF rest = half THEN {low, Add(low, One)} ELSE {Add(low, One)}
  IN IF Len(f) > 2 \/ f[1] \o frac = <<>> \/ ~AllDigits(f[1]) \/ ~AllDigits(frac) THEN {}
     ELSE {m \in {Mul(n, Cent) : n \in ns} : Lt(m, Limit)}

\* The time of a line, or NoDate
TextTime(s0) ==
  LET s == Trim(s0)
      day == Len(s) >= 10 /\ s[5] = Minus /\ s[8] = Minus /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDigit(s[i])
      y == SmallNum(Upto(s, 4)) m == SmallNum(SubSeq(s, 6, 7)) d == SmallNum(SubSeq(s, 9, 10))
      h == SmallNum(SubSeq(s, 12, 13)) mi == SmallNum(SubSeq(s, 15, 16))
  IN IF ~day THEN NoDate
     ELSE IF ~(m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m)) THEN NoDate
     ELSE IF Len(s) = 10 THEN <<DayNumber(y, m, d), 0>>
     ELSE IF ~(Len(s) = 16 /\ s[11] = 32 /\ s[14] = 46 /\ \A i \in {12, 13, 15, 16} : IsDigit(s[i])) THEN NoDate
     ELSE IF h > 23 \/ mi > 59 THEN NoDate
     ELSE <<DayNumber(y, m, d), 3600 * h + 60 * mi>>

\* the last account with that identifier, or 0
RECURSIVE WithId(_, _, _)
WithId(accts, id, i) == IF i = 0 THEN 0 ELSE IF accts[i].id = id THEN i ELSE WithId(accts, id, i - 1)

TextAccount(T, line) ==
  LET f == SplitBy(line, Colon) IN
  IF Len(f) # 6 \/ Whole(f[1]) = <<>> THEN T
  ELSE LET p == Whole(f[6]) IN
       [T EXCEPT !.accts = Append(@, [id |-> Whole(f[1])[1], name |-> f[4], code |-> f[5],
                                      parent |-> IF p = <<>> THEN 0 ELSE WithId(T.accts, p[1], Len(T.accts))])]

\* One more posting; the transaction ends if nothing remains
LOCAL WithPosting(T, time, desc, p) ==
  LET begun == T.posts # <<>>
      start == IF begun THEN T.time ELSE time
      q     == [p EXCEPT !.time = IF time = start THEN NoDate ELSE time]
      sum   == IF p.asrt # <<>> THEN Zero ELSE Add(T.sum, p.val[2])
      x     == [time |-> start, desc |-> IF begun THEN T.desc ELSE desc, comments |-> <<>>, src |-> <<0, Len(T.txns) + 1>>,
                posts |-> Append(T.posts, q)]
  IN IF IsZero(sum) THEN [T EXCEPT !.txns = Append(@, x), !.posts = <<>>, !.sum = Zero]
     ELSE [T EXCEPT !.posts = x.posts, !.time = x.time, !.desc = x.desc, !.sum = sum]

\* What can result from one line of the file of transactions
TextPosting(T, line) ==
  LET f    == SplitBy(line, Colon)
      time == TextTime(f[2])
      id   == Whole(f[5])
      acct == IF id = <<>> THEN 0 ELSE WithId(T.accts, id[1], Len(T.accts))
      p    == [acct |-> acct, time |-> NoDate, val |-> <<0, Zero>>, price |-> <<>>, asrt |-> <<>>, comments |-> <<>>, src |-> <<0, 0>>]
      as(s, n) == <<-1, Signed(s, n)>>
  IN IF Len(f) # 7 THEN {T}
     ELSE IF time = NoDate \/ acct = 0 THEN {T}
     ELSE IF f[6] # <<>>
     THEN IF f[6][1] \notin {Plus, Minus} \/ Hundredths(Tail(f[6])) = {} THEN {T}
          ELSE {WithPosting(T, time, f[3], [p EXCEPT !.val = as(f[6], n)]) : n \in Hundredths(Tail(f[6]))}
     ELSE IF f[7] # <<>>
     THEN IF Hundredths(Unsigned(f[7])) = {} THEN {T}
          ELSE {WithPosting(T, time, f[3], [p EXCEPT !.asrt = as(f[7], n)]) : n \in Hundredths(Unsigned(f[7]))}
     ELSE {T, [T EXCEPT !.posts = <<>>, !.sum = Zero]}   \* nothing at all: in the middle of a transaction, it can end it

\* The accounts in their final order, which is the one of their full names, with everything in terms of it
RECURSIVE FullName(_, _)
FullName(accts, i) == IF accts[i].parent = 0 THEN accts[i].name ELSE FullName(accts, accts[i].parent) \o <<Colon>> \o accts[i].name
TextAccts(T, order) ==   \* order: their positions
  LET full  == [i \in DOMAIN T.accts |-> FullName(T.accts, i)]
      pos(i) == IF i = 0 THEN 0 ELSE CHOOSE k \in DOMAIN order : order[k] = i
  IN [accts |-> [k \in DOMAIN order |-> LET a == T.accts[order[k]] IN
                   [full |-> full[order[k]], name |-> a.name, parent |-> pos(a.parent), code |-> a.code, comments |-> <<>>, src |-> a.id]],
      pos |-> [i \in DOMAIN T.accts |-> pos(i)]]
=============================================================================
