------------------------------- MODULE Table -------------------------------
(* The tables that one sees in the interactive commands: the accounts with *)
(* their balances, and the postings of the account that one chooses.       *)
(* O is the ledger, P its postings by account and R a command line, of     *)
(* which the limits count.                                                 *)
EXTENDS Report

LOCAL T2(n) == << 48 + (n \div 10), 48 + (n % 10) >>
DayText(time) == LET d == Civil(time[1]) IN T2(d[3]) \o <<45>> \o T2(d[2]) \o <<45>> \o T2(d[1] \div 100) \o T2(d[1] % 100)

\* postings in order of date, and as they were when they have the same
RECURSIVE Insert(_, _)
LOCAL Insert(ps, p) == IF ps = <<>> \/ ~TimeLt(p[1], ps[Len(ps)][1]) THEN Append(ps, p)
                       ELSE Append(Insert(SubSeq(ps, 1, Len(ps) - 1), p), ps[Len(ps)])
RECURSIVE Sorted(_)
LOCAL Sorted(ps) == IF ps = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(ps, 1, Len(ps) - 1)), ps[Len(ps)])

\* What is in the columns of every row
AccountTable(O, S) == [k \in DOMAIN O.accts |-> [texts |-> <<Neat(O.accts[k].full)>>, val |-> <<>>, bal |-> BalSum(S.accts[k].start, S.accts[k].moved)]]

PostingTable(O, S, P, R, k) ==
  LET piv  == Pivoted(O, R.pivots)
      mine == Sorted(SelectSeq(P[k], LAMBDA p : p[3] \in piv /\ ~(R.b # <<>> /\ TimeLt(p[1], S.begin)) /\ (R.e = <<>> \/ TimeLe(p[1], S.end))))
      upto(i) == BalSum(S.accts[k].start, Vals(SubSeq(mine, 1, i)))
  IN [i \in DOMAIN mine |-> [texts |-> <<DayText(mine[i][1]), Neat(O.txns[mine[i][3]].desc)>>, val |-> <<mine[i][2]>>, bal |-> upto(i)]]

\* what shows as nothing can be left blank; and (the currency of databases has no name) nothing at all have any decimals
LOCAL Nothing == {<<48>>, <<48, 46, 48, 48>>}
IsVal(O, v, t) == LET s == Neat(ShowVal(O, v)) IN t = s \/ (t = <<>> /\ s \in Nothing) \/ (IsZero(v[2]) /\ t \in Nothing \cup {<<>>})
RowRight(O, row, cells) ==
  LET n == Len(row.texts) IN
  /\ Len(cells) = n + Len(row.val) + 1
  /\ \A c \in 1..n : Neat(cells[c]) = row.texts[c]
  /\ row.val # <<>> => IsVal(O, row.val[1], Neat(cells[n + 1]))
  /\ IsBal(O, row.bal, Neat(cells[Len(cells)]))
Like(O, seen, table) == Len(seen) = Len(table) /\ \A i \in DOMAIN table : RowRight(O, table[i], seen[i])

\* tables: all that was shown, [depth, rows]: the accounts first, and then the postings of every one of them
TablesRight(O, P, R, status, tables) ==
  LET S == Selected(O, P, R) IN
  IF S.wrong THEN status = "fail" /\ tables = <<>>
  ELSE /\ status = "ok"
       /\ Len(tables) = Len(O.accts) + 1
       /\ tables[1].depth = 0 /\ Like(O, tables[1].rows, AccountTable(O, S))
       /\ \A k \in DOMAIN O.accts : tables[k + 1].depth = 1 /\ Like(O, tables[k + 1].rows, PostingTable(O, S, P, R, k))
=============================================================================
