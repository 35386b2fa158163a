------------------------------- MODULE SqlDB ------------------------------
(* How a PostgreSQL database is read.  It has three tables:                *)
(*   account      rows [id, parent, name, code]                            *)
(*   transaction  rows [id, time, desc]                                    *)
(*   split        rows [txn, acct, amount], in the order of the database   *)
(* parent, name, code, desc and amount are <<>> when there is none, and    *)
(* <<what it is>> otherwise; amounts are in units of 10^-8.                *)
EXTENDS Integers, Sequences, Text, BigNum, Calendar, TLC

\* a value that may be missing
LOCAL Or(x, default) == IF x = <<>> THEN default ELSE x[1]

Sorted(s, Before(_, _)) ==
  LET idx == SortSeq([i \in DOMAIN s |-> i], LAMBDA i, j : Before(s[i], s[j]) \/ (~Before(s[j], s[i]) /\ i < j))
  IN [k \in DOMAIN s |-> s[idx[k]]]

\* The rows in the order in which they are read
AccountRows(db) == Sorted(db.accounts, LAMBDA a, b : a.id < b.id)
PostingRows(db) ==
  LET row(s) == LET t == CHOOSE i \in DOMAIN db.transactions : db.transactions[i].id = s.txn IN
                [txn |-> s.txn, acct |-> s.acct, amount |-> s.amount, time |-> db.transactions[t].time, desc |-> db.transactions[t].desc]
  IN Sorted([i \in DOMAIN db.splits |-> row(db.splits[i])],
            LAMBDA a, b : TimeLt(a.time, b.time) \/ (a.time = b.time /\ a.txn < b.txn))

\* position of the row with that identifier, or 0
RECURSIVE IdAt(_, _, _)
IdAt(rows, id, i) == IF i > Len(rows) THEN 0 ELSE IF rows[i].id = id THEN i ELSE IdAt(rows, id, i + 1)

\* One more account; what is not in the table yet is found later
CanReadAccount(a) == a.name # <<>>
WithAccount(accts, a) ==
  Append(accts, [id |-> a.id, above |-> Or(a.parent, 0), parent |-> 0, name |-> Or(a.name, <<>>), code |-> Or(a.code, <<>>)])
Adopted(accts) == [i \in DOMAIN accts |-> [accts[i] EXCEPT !.parent = IdAt(accts, accts[i].above, 1)]]

\* i is among its own ancestors
RECURSIVE Above(_, _, _)
Above(accts, i, n) == IF n = 0 THEN i ELSE IF i = 0 THEN 0 ELSE Above(accts, accts[i].parent, n - 1)
Circular(accts) == \E i \in DOMAIN accts : Above(accts, i, Len(accts)) # 0

RECURSIVE NameOf(_, _)
NameOf(accts, i) == IF accts[i].parent = 0 THEN accts[i].name ELSE NameOf(accts, accts[i].parent) \o <<58>> \o accts[i].name

\* One more posting
CanReadPosting(s) == s.amount # <<>> /\ InInt64(s.amount[1])
WithRow(txns, accts, s) ==
  LET p == [acct |-> IdAt(accts, s.acct, 1), time |-> NoDate, val |-> <<-1, s.amount[1]>>, price |-> <<>>, asrt |-> <<>>,
            comments |-> <<>>, src |-> <<0, 0>>]
      n == Len(txns)
  IN IF n > 0 /\ txns[n].src = <<0, s.txn>> THEN [txns EXCEPT ![n].posts = Append(@, p)]
     ELSE Append(txns, [time |-> s.time, desc |-> Or(s.desc, <<>>), comments |-> <<>>, src |-> <<0, s.txn>>, posts |-> <<p>>])

FinalAccts(accts) == [i \in DOMAIN accts |-> [full |-> NameOf(accts, i), name |-> accts[i].name, parent |-> accts[i].parent,
                                               code |-> accts[i].code, comments |-> <<>>, src |-> <<0, accts[i].id>>]]
=============================================================================
