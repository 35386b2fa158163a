------------------------------- MODULE Report ------------------------------
(* The reports of the command line: what each command shows of a ledger O  *)
(* (as the code made it), with the options of the command line.            *)
(* A report is [ok, lines]: a sequence of sets of texts, each one with the *)
(* texts that the line can be; ok is FALSE if the command has to fail,     *)
(* and fits is FALSE if something does not fit in what can be stored.      *)
EXTENDS Integers, Sequences, Text, BigNum, Money, Calendar, Balance, Convert

CONSTANTS Now   \* the end date when there is none: later than everything

-----------------------------------------------------------------------------
\* Dates of the command line

LOCAL StartOfDay == <<47, 48, 48, 58, 48, 48, 58, 48, 48>>           \* /00:00:00
LOCAL EndOfDay   == <<47, 50, 51, 58, 53, 57, 58, 53, 57>>           \* /23:59:59
LOCAL D01        == <<45, 48, 49>>                                   \* -01
LOCAL D12        == <<45, 49, 50, 45, 51, 49>>                       \* -12-31

BeginTime(t) ==
  GetDate(CASE Len(t) = 4 -> t \o D01 \o D01 \o StartOfDay
            [] Len(t) = 7 -> t \o D01 \o StartOfDay
            [] Len(t) = 10 -> t \o StartOfDay
            [] OTHER -> t)
EndTime(t) ==
  CASE Len(t) = 4 -> GetDate(t \o D12 \o EndOfDay)
    [] Len(t) = 7 -> LET d == GetDate(t \o D01 \o EndOfDay) IN
                     IF d = NoDate THEN NoDate
                     ELSE << d[1] + DaysInMonth(SmallNum(Upto(t, 4)), SmallNum(From(t, 6))) - 1, d[2] >>
    [] Len(t) = 10 -> GetDate(t \o EndOfDay)
    [] OTHER -> GetDate(t)

-----------------------------------------------------------------------------
\* What is selected of a ledger

Matches(name, pats) == \E i \in DOMAIN pats : Contains(Lower(name), Lower(pats[i]))

\* the transactions that a pivot leaves
Pivoted(O, pivots) ==
  IF pivots = <<>> THEN DOMAIN O.txns
  ELSE {t \in DOMAIN O.txns : \E p \in DOMAIN O.txns[t].posts : Matches(O.accts[O.txns[t].posts[p].acct].full, pivots)}

\* all the postings of every account: <<time, value, transaction>>
RECURSIVE PostsFrom(_, _, _)
LOCAL PostsFrom(O, k, t) ==
  IF t > Len(O.txns) THEN <<>>
  ELSE LET ps == SelectSeq(O.txns[t].posts, LAMBDA p : p.acct = k) IN
       [i \in DOMAIN ps |-> <<ps[i].time, ps[i].val, t>>] \o PostsFrom(O, k, t + 1)
Postings(O) == [k \in DOMAIN O.accts |-> PostsFrom(O, k, 1)]

\* Only what a command line R selects: for every account, what it starts with and its postings; the transactions
Vals(ps) == [i \in DOMAIN ps |-> ps[i][2]]
Selected(O, P, R) ==
  LET begin == IF R.b = <<>> THEN NoDate ELSE BeginTime(R.b)
      end   == IF R.e = <<>> THEN NoDate ELSE EndTime(R.e)
      piv   == Pivoted(O, R.pivots)
      before(time) == begin # NoDate /\ TimeLt(time, begin)
      within(time) == ~before(time) /\ (end = NoDate \/ TimeLe(time, end))
      acct(k) == LET mine == SelectSeq(P[k], LAMBDA p : p[3] \in piv) IN
                 [start |-> BalSum(<<>>, Vals(SelectSeq(mine, LAMBDA p : before(p[1])))),
                  moved |-> BalSum(<<>>, Vals(SelectSeq(mine, LAMBDA p : within(p[1])))),
                  n     |-> Len(SelectSeq(mine, LAMBDA p : within(p[1])))]
  IN [begin |-> begin,
      end   |-> IF end = NoDate THEN Now ELSE end,
      wrong |-> (R.b # <<>> /\ begin = NoDate) \/ (R.e # <<>> /\ end = NoDate),
      accts |-> [k \in DOMAIN O.accts |-> acct(k)],
      txns  |-> SelectSeq([t \in DOMAIN O.txns |-> t], LAMBDA t : t \in piv /\ within(O.txns[t].time))]

-----------------------------------------------------------------------------
\* Texts

\* texts are compared after making every run of spaces a single one, and without spaces at the ends
RECURSIVE Squeeze(_, _)
LOCAL Squeeze(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsSpace(s[i]) THEN (IF i < Len(s) /\ IsSpace(s[i + 1]) THEN <<>> ELSE <<32>>) \o Squeeze(s, i + 1)
  ELSE <<s[i]>> \o Squeeze(s, i + 1)
Neat(s) == Trim(Squeeze(s, 1))

Cu(O, c) == WithTexts(IF c > 0 THEN O.currs[c] ELSE O.unnamed)
ShowVal(O, v) == Show(v[2], Cu(O, v[1]), FALSE, TRUE)
ShowFull(O, v) == Show(v[2], Cu(O, v[1]), TRUE, TRUE)

RECURSIVE Joins(_)
LOCAL Joins(ts) ==   \* every way to write a set of texts, separated by commas
  IF Len(ts) = 1 THEN {ts[1]}
  ELSE UNION {{ts[i] \o <<44, 32>> \o j : j \in Joins(SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts)))} : i \in DOMAIN ts}
\* the same, without writing all of them: whether a text is one of those ways
RECURSIVE Joined(_, _)
LOCAL Joined(ts, t) == IF Len(ts) = 1 THEN t = ts[1]
                       ELSE \E i \in DOMAIN ts : LET p == ts[i] \o <<44, 32>> IN
                              IsPrefixOf(p, t) /\ Joined(SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts)), From(t, Len(p) + 1))
IsBal(O, b, t) == IF b = <<>> THEN t = <<48>>
                  ELSE LET ts == [i \in DOMAIN b |-> ShowVal(O, b[i])] IN
                       IF \A i \in DOMAIN ts : Neat(ts[i]) = ts[i] THEN Joined(ts, t) ELSE t \in {Neat(x) : x \in Joins(ts)}

LOCAL Digits2(n) == << 48 + (n \div 10), 48 + (n % 10) >>
LOCAL Day(n) == LET d == Civil(n) IN Digits2(d[1] \div 100) \o Digits2(d[1] % 100) \o <<45>> \o Digits2(d[2]) \o <<45>> \o Digits2(d[3])
LOCAL Dec(n) == Digits(Num(n))

-----------------------------------------------------------------------------
\* Market values: [ok, fits, bal]
RECURSIVE Market(_, _, _, _)
Market(O, b, when, acc) ==
  IF b = <<>> THEN [ok |-> TRUE, fits |-> BalFits(acc), bal |-> acc]
  ELSE LET r == Converted(O.prices, b[1], when, O.dflt) IN
       IF ~r.ok \/ ~r.fits THEN [ok |-> r.ok, fits |-> r.fits, bal |-> acc]
       ELSE Market(O, Tail(b), when, BalAdd(acc, <<O.dflt, r.amt>>))

Name(O, c) == IF c > 0 THEN O.currs[c].name ELSE <<>>
InCurrencies(O, b, names) == IF names = <<>> THEN b ELSE SelectSeq(b, LAMBDA v : \E i \in DOMAIN names : names[i] = Name(O, v[1]))

\* balance: the rows (accounts) with their balances
BalanceRows(O, S, R) ==
  LET chosen == SelectSeq([k \in DOMAIN O.accts |-> k], LAMBDA k : R.args = <<>> \/ Matches(O.accts[k].full, R.args))
      top(k) == R.args # <<>> /\ (O.accts[k].parent = 0 \/ ~Matches(O.accts[O.accts[k].parent].full, R.args))
      held(k) == InCurrencies(O, BalSum(S.accts[k].start, S.accts[k].moved), R.currs)
      m(k) == IF R.market THEN Market(O, held(k), S.end, <<>>) ELSE [ok |-> TRUE, fits |-> TRUE, bal |-> held(k)]
  IN [i \in DOMAIN chosen |-> LET k == chosen[i] r == m(k) IN
        [name |-> IF top(k) THEN O.accts[k].full ELSE O.accts[k].name, ok |-> r.ok, fits |-> r.fits, bal |-> r.bal]]
RECURSIVE RowsTotal(_, _)
RowsTotal(rows, b) == IF rows = <<>> THEN b ELSE RowsTotal(Tail(rows), BalSum(b, rows[1].bal))

\* n lines with the values of b, in any order; the last one with the name
RECURSIVE Block(_, _, _, _)
LOCAL Block(O, b, name, lines) ==
  IF Len(b) = 0 THEN lines = <<>>
  ELSE /\ Len(lines) = Len(b)
       /\ \E i \in DOMAIN b :
            /\ lines[1] = Neat(ShowVal(O, b[i]) \o (IF Len(b) = 1 THEN <<32>> \o name ELSE <<>>))
            /\ Block(O, SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)), name, Tail(lines))

RECURSIVE BlocksRight(_, _, _)
\* all the rows; what has no amount may have a line with its name or not: whether they are right, and the rest of the lines
LOCAL BlocksRight(O, rows, lines) ==
  IF rows = <<>> THEN [ok |-> TRUE, rest |-> lines]
  ELSE LET r == rows[1] n == Len(r.bal) IN
       IF n = 0 THEN BlocksRight(O, Tail(rows), IF lines # <<>> /\ lines[1] = Neat(r.name) THEN Tail(lines) ELSE lines)
       ELSE IF Len(lines) >= n /\ Block(O, r.bal, r.name, SubSeq(lines, 1, n)) THEN BlocksRight(O, Tail(rows), SubSeq(lines, n + 1, Len(lines)))
       ELSE [ok |-> FALSE, rest |-> <<>>]

LOCAL Dashes(l) == \A i \in DOMAIN l : l[i] = 45
LOCAL TotalRight(O, total, lines) == IF total = <<>> THEN lines = << <<48>> >> ELSE Block(O, total, <<>>, lines)

BalanceRight(O, S, R, status, lines) ==
  LET rows == BalanceRows(O, S, R)
      total == RowsTotal(rows, <<>>)
      blocks == BlocksRight(O, rows, lines)
      rest == blocks.rest
  IN IF \E i \in DOMAIN rows : ~rows[i].ok \/ ~rows[i].fits
     THEN (\E i \in DOMAIN rows : ~rows[i].fits) \/ (status = "fail" /\ lines = <<>>)
     ELSE IF R.market /\ ~BalFits(total) THEN TRUE
     ELSE /\ status = "ok"
          /\ IF R.total THEN TotalRight(O, total, lines)
             ELSE blocks.ok /\ rest # <<>> /\ Dashes(rest[1]) /\ TotalRight(O, total, Tail(rest))

-----------------------------------------------------------------------------
\* incomestatement: the lines are [name, text] pairs (what there is at both sides of "||")
LOCAL Income  == <<73, 110, 99, 111, 109, 101>>
LOCAL Expense == <<69, 120, 112, 101, 110, 115, 101>>
LOCAL Under(full, name) == full = name \/ IsPrefixOf(name \o <<58>>, full)

LOCAL Part(O, S, R, name, neg) ==
  LET ks == SelectSeq([k \in DOMAIN O.accts |-> k],
              LAMBDA k : Under(O.accts[k].full, name) /\ (R.args = <<>> \/ Matches(O.accts[k].full, R.args)) /\ S.accts[k].n > 0)
      bal(k) == IF neg THEN BalNeg(S.accts[k].moved) ELSE S.accts[k].moved
      rows == [i \in DOMAIN ks |-> [name |-> O.accts[ks[i]].full, bal |-> bal(ks[i])]]
  IN [rows |-> rows, total |-> RowsTotal(rows, <<>>)]

LOCAL Net == <<78, 101, 116, 58>>
IncomeRight(O, S, R, status, lines, pairs) ==
  LET inc == Part(O, S, R, Income, TRUE)
      exp == Part(O, S, R, Expense, FALSE)
      net == BalSum(inc.total, BalNeg(exp.total))
      want == inc.rows \o << [name |-> <<>>, bal |-> inc.total] >> \o exp.rows \o << [name |-> <<>>, bal |-> exp.total], [name |-> Net, bal |-> net] >>
  IN /\ status = "ok"
     /\ IF R.total THEN Len(lines) = 1 /\ IsBal(O, net, lines[1])
        ELSE Len(pairs) = Len(want) /\ \A i \in DOMAIN want : pairs[i][1] = Neat(want[i].name) /\ IsBal(O, want[i].bal, pairs[i][2])

-----------------------------------------------------------------------------
RECURSIVE SumOf(_, _, _)
LOCAL SumOf(S, ks, which) ==
  IF ks = <<>> THEN <<>> ELSE BalSum(SumOf(S, Tail(ks), which), IF which = "start" THEN S.accts[ks[1]].start ELSE S.accts[ks[1]].moved)

DeltaRight(O, S, R, status, lines) ==
  LET ks == SelectSeq([k \in DOMAIN O.accts |-> k], LAMBDA k : Matches(O.accts[k].full, R.args))
      start == SumOf(S, ks, "start")
      moved == SumOf(S, ks, "moved")
      m1 == Market(O, start, S.begin, <<>>)
      m2 == Market(O, BalSum(start, moved), S.end, <<>>)
      d  == IF R.market THEN BalSum(m2.bal, BalNeg(m1.bal)) ELSE moved
  IN IF R.args = <<>> THEN status = "ok" /\ lines = <<>>
     ELSE IF R.market /\ ~(m1.fits /\ m2.fits /\ BalFits(d)) THEN TRUE
     ELSE IF R.market /\ ~(m1.ok /\ m2.ok) THEN status = "fail" /\ lines = <<>>
     ELSE status = "ok" /\ Len(lines) = 1 /\ IsBal(O, IF R.negate THEN BalNeg(d) ELSE d, lines[1])

-----------------------------------------------------------------------------
\* price: one line for each argument, up to the first one that has no price
LOCAL PriceOf(O, S, p) ==
  LET c == SelectSeq([i \in DOMAIN O.currs |-> i], LAMBDA i : O.currs[i].name = p) IN
  IF c = <<>> THEN [ok |-> FALSE, amt |-> Zero, fits |-> TRUE] ELSE LET r == Converted(O.prices, <<c[1], U>>, S.end, O.dflt) IN [ok |-> r.ok, amt |-> r.amt, fits |-> r.fits]
LOCAL PriceFor == <<80, 114, 105, 99, 101, 32, 102, 111, 114, 32>>
RECURSIVE PricesRight(_, _, _, _, _, _)
LOCAL PricesRight(O, S, R, args, status, lines) ==
  IF args = <<>> THEN status = "ok" /\ lines = <<>>
  ELSE LET r == PriceOf(O, S, args[1]) IN
       IF ~r.fits THEN TRUE
       ELSE IF ~r.ok THEN status = "fail" /\ lines = <<>>
       ELSE /\ lines # <<>>
            /\ lines[1] = Neat((IF R.batch THEN <<>> ELSE PriceFor \o args[1] \o <<58, 32>>) \o ShowFull(O, <<O.dflt, r.amt>>))
            /\ PricesRight(O, S, R, Tail(args), status, Tail(lines))
PriceRight(O, S, R, status, lines) == PricesRight(O, S, R, R.args, status, lines)

-----------------------------------------------------------------------------
\* stats, whose lines are [name, text] pairs (what there is at both sides of the first ":")
LOCAL SpanText(first, last) == Day(first[1]) \o <<32, 116, 111, 32>> \o Day(last[1]) \o <<32, 40>> \o Dec(last[1] - first[1] + 1) \o <<32, 100, 97, 121, 115, 41>>
LOCAL PerDay(n, days) ==   \* n/days with one decimal: the nearest one, any of both in the middle
  LET f == (10 * n) \div days
      near(k) == LET d == 10 * n - k * days IN (IF d < 0 THEN -d ELSE d) * 2 <= days
  IN {Dec(k \div 10) \o <<46>> \o Dec(k % 10) : k \in {j \in {f, f + 1} : near(j)}}
RECURSIVE Names(_, _)
LOCAL Names(O, i) == IF i > Len(O.currs) THEN <<>> ELSE (IF i > 1 THEN <<32>> ELSE <<>>) \o O.currs[i].name \o Names(O, i + 1)
StatsRight(O, S, R, status, lines, pairs) ==
  LET n == Len(S.txns)
      first == O.txns[S.txns[1]].time
      last == O.txns[S.txns[n]].time
  IN /\ status = "ok"
     /\ IF n = 0 THEN Len(lines) = 1 /\ ~\E i \in DOMAIN lines[1] : IsDigit(lines[1][i])
        ELSE /\ Len(pairs) = 5
             /\ pairs[1][2] = SpanText(first, last)
             /\ \E d \in PerDay(n, last[1] - first[1] + 1) : pairs[2][2] = Dec(n) \o <<32, 40>> \o d \o <<32, 112, 101, 114, 32, 100, 97, 121, 41>>
             /\ pairs[3][2] = Dec(Len(O.accts))
             /\ pairs[4][2] = Neat(Dec(Len(O.currs)) \o <<32, 40>> \o Names(O, 1) \o <<41>>)
             /\ pairs[5][2] = Dec(Len(O.prices))

\* accounts: one line for each one; its full name, or, as a tree, something which ends in its name
AccountsRight(O, R, status, lines) ==
  /\ status = "ok"
  /\ IF R.tree THEN /\ Len(lines) = Len(O.accts)
                    /\ \A k \in DOMAIN lines : LET n == Neat(O.accts[k].name) IN Len(lines[k]) >= Len(n) /\ From(lines[k], Len(lines[k]) - Len(n) + 1) = n
     ELSE lines = [k \in DOMAIN O.accts |-> Neat(O.accts[k].full)]

-----------------------------------------------------------------------------
\* What a command line has printed is right
ReportRight(O, P, R, status, lines, pairs) ==
  LET S == Selected(O, P, R) IN
  IF S.wrong THEN status = "fail" /\ lines = <<>>
  ELSE CASE R.cmd = "balance"         -> BalanceRight(O, S, R, status, lines)
         [] R.cmd = "incomestatement" -> IncomeRight(O, S, R, status, lines, pairs)
         [] R.cmd = "delta"           -> DeltaRight(O, S, R, status, lines)
         [] R.cmd = "price"           -> PriceRight(O, S, R, status, lines)
         [] R.cmd = "stats"           -> StatsRight(O, S, R, status, lines, pairs)
         [] R.cmd = "accounts"        -> AccountsRight(O, R, status, lines)
=============================================================================
