------------------------------ MODULE Momentum ----------------------------
(* How much currencies have grown (the command muscular): for each one, by *)
(* how much its value in the default currency at the end date is greater   *)
(* than at some earlier dates, on average.                                  *)
EXTENDS Integers, Sequences, Text, BigNum, Calendar, Convert

\* some months and days before a time, as calendars with days that do not exist are understood: 31 February is 3 (or 2) March
Back(t, months, days) ==
  LET c == Civil(t[1])
      m == c[1] * 12 + (c[2] - 1) - months
  IN << DayNumber(m \div 12, (m % 12) + 1, 1) + c[3] - 1 - days, t[2] >>
RECURSIVE Dates(_, _, _, _)
Dates(t, months, days, n) == IF n = 0 THEN <<>> ELSE LET b == Back(t, months, days) IN <<b>> \o Dates(b, months, days, n - 1)

LOCAL Big == Num(1000000) \* millionths, and as many more decimals
LOCAL Bigger == Mul(Big, Big)

\* ps: prices; c: a currency; [ok: there is such a number, ppt: it, in units of 10^-12, up to n of them]
RECURSIVE Ratios(_, _)
LOCAL Ratios(now, was) == IF was = <<>> THEN Zero ELSE Add(Floor(Mul(now, Bigger), was[1]), Ratios(now, Tail(was)))
Growth(ps, c, end, months, days, n, dflt) ==
  LET now == Converted(ps, <<c, U>>, end, dflt)
      ds  == Dates(end, months, days, n)
      was == [i \in DOMAIN ds |-> Converted(ps, <<c, U>>, ds[i], dflt)]
  IN IF c = 0 \/ ~now.ok \/ ~now.fits \/ n = 0 \/ \E i \in DOMAIN was : ~was[i].ok \/ ~was[i].fits \/ Sign(was[i].amt) <= 0
     THEN [ok |-> FALSE, ppt |-> Zero]
     ELSE [ok |-> TRUE, ppt |-> Sub(Floor(Ratios(now.amt, [i \in DOMAIN was |-> was[i].amt]), Num(n)), Bigger)]

\* A text with six decimals, in millionths (NoNumber: it is not one)
NoNumber == <<>>
Millionths(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      t   == IF neg THEN From(s, 2) ELSE s
      dot == Find(t, 46, 1)
  IN IF dot < 2 \/ Len(t) # dot + 6 \/ ~AllDigits(Upto(t, dot - 1)) \/ ~AllDigits(From(t, dot + 1)) THEN NoNumber
     ELSE LET x == FromDigits(Upto(t, dot - 1) \o From(t, dot + 1)) IN IF neg THEN Neg(x) ELSE x

\* The text may be the number g: a millionth more or less, and what floating point loses
Shows(s, g) ==
  LET x == Millionths(s) IN
  x # NoNumber /\ Le(Abs(Sub(Mul(x, Big), g.ppt)), Add(Big, Floor(Abs(g.ppt), Num(1000000000))))

\* The line of a currency called name
LineRight(l, name, g) ==
  LET i == Find(l, 32, 1) IN
  /\ i > 1 /\ From(l, i + 1) = name
  /\ g.ok => Shows(Upto(l, i - 1), g)
=============================================================================
