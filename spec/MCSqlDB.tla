------------------------------- MODULE MCSqlDB -----------------------------
(* Small PostgreSQL databases: all of some size, or random ones.  Each is  *)
(* printed, to be opened by the code.                                      *)
EXTENDS SqlReader, Json, IOUtils, FiniteSets

CONSTANTS NAccts, NTxns, NSplits, Amounts
Sample == atoi(IOEnv.SAMPLE)
SomeAmounts == {-2, -1, 0, 1, 2, 3, 4, 5, 99}      \* 99: none
FewAmounts == {-1, 0, 1}

mcSql == <<vars, db, rows, accts, txns>>
VARIABLE was      \* the rows that were read, in order (a history)

Ids == <<7, 2, 9, 4>>          \* of accounts: not in order
Times(n) == [1..n -> 0..1]
Parents(n) == [1..n -> 0..n]   \* positions, 0 for none
Splits(n, na, nt) == [1..n -> [txn : 1..nt, acct : 1..na, amount : Amounts]]

Database(na, nt, ps, ts, ss) ==
  [accounts |-> [i \in 1..na |-> [id |-> Ids[i], parent |-> IF ps[i] = 0 THEN <<>> ELSE <<Ids[ps[i]]>>, name |-> << <<64 + i>> >>,
                                  code |-> IF i = 2 THEN << <<120>> >> ELSE <<>>]],
   transactions |-> [i \in 1..nt |-> [id |-> Ids[i], time |-> <<ts[i], 0>>, desc |-> IF i = 1 THEN <<>> ELSE << <<96 + i>> >>]],
   splits |-> [i \in DOMAIN ss |-> [txn |-> Ids[ss[i].txn], acct |-> Ids[ss[i].acct], amount |-> IF ss[i].amount = 99 THEN <<>> ELSE <<Num(ss[i].amount)>>]],
   broken |-> [none |-> 0], missing |-> FALSE]

\* The last posting of every transaction made to balance it
RECURSIVE SumOf(_, _, _)
SumOf(ss, t, i) == IF i = 0 THEN 0 ELSE (IF ss[i].txn = t /\ ss[i].amount # 99 THEN ss[i].amount ELSE 0) + SumOf(ss, t, i - 1)
Balanced(ss) == [i \in DOMAIN ss |-> IF ss[i].amount = 99 \/ \E j \in DOMAIN ss : j > i /\ ss[j].txn = ss[i].txn THEN ss[i]
                                     ELSE [ss[i] EXCEPT !.amount = -SumOf(ss, ss[i].txn, i - 1)]]

\* (with parameters, for TLC not to enumerate everything beforehand)
RandomDb(k) ==
  LET na == RandomElement(NAccts) nt == RandomElement(NTxns) n == RandomElement(NSplits) IN
  TLCEval(<<na, nt, [i \in 1..na |-> RandomElement({0} \cup 0..na)], [i \in 1..nt |-> RandomElement(0..1)],
            [i \in 1..n |-> [txn |-> RandomElement(1..nt), acct |-> RandomElement(1..na), amount |-> RandomElement(Amounts)]]>>)
RandomOne(k) == LET d == RandomDb(k) IN IF RandomElement(1..4) = 1 THEN d ELSE TLCEval([d EXCEPT ![5] = Balanced(@)])
AllDbs(k) == UNION {{<<na, nt, p, t, s>> : p \in Parents(na), t \in Times(nt), s \in UNION {Splits(n, na, nt) : n \in NSplits}} : na \in NAccts, nt \in NTxns}
Dbs(k) == IF Sample = 0 THEN AllDbs(k) ELSE {RandomOne(i) : i \in 1..Sample}

MCSqlInit ==
  /\ \E d \in Dbs(1) : /\ db = Database(d[1], d[2], d[3], d[4], d[5]) /\ PrintT(<<"@@", ToJson(d)>>)
  /\ rows = <<>> /\ accts = <<>> /\ txns = <<>> /\ was = <<>> /\ LedgerInit(<<>>)
MCSqlNext == /\ IF phase = "filling" THEN Fill /\ UNCHANGED <<db, rows, accts, txns>> ELSE ReadSql
             /\ was' = IF phase = "postings" /\ rows # <<>> THEN Append(was, rows[1]) ELSE was
MCSqlSpec == MCSqlInit /\ [][MCSqlNext]_<<mcSql, was>>
-----------------------------------------------------------------------------
Loaded == phase = "filling" /\ F.next = 1 /\ F.err = ""

\* from the tables, by their definition
RECURSIVE Ancestor(_, _, _)
Ancestor(i, j, n) ==     \* j is an ancestor of i, at most n levels above
  n > 0 /\ LET p == db.accounts[i].parent IN
           p # <<>> /\ LET k == CHOOSE k \in DOMAIN db.accounts : db.accounts[k].id = p[1] IN k = j \/ Ancestor(k, j, n - 1)
Cyclic == \E i \in DOMAIN db.accounts : Ancestor(i, i, Len(db.accounts))
NoAmount == \E i \in DOMAIN db.splits : db.splits[i].amount = <<>>

RefusedRight == phase = "refused" =>
  CASE J.fatal = "circular" -> Cyclic
    [] J.fatal = "wrong amount" -> NoAmount
    [] OTHER -> F.err # "" \/ J.fatal = "wrong account"
AcceptedRight == phase \in {"filling", "ready"} => ~Cyclic /\ ~NoAmount

Rows(s) == [i \in DOMAIN s |-> <<s[i].txn, s[i].acct, s[i].amount>>]
CountOf(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
EveryRow == Loaded =>      \* every row of splits is a posting of its transaction, and nothing else is
  /\ \A t \in DOMAIN txns : \A p \in DOMAIN txns[t].posts : LET x == <<txns[t].src[2], accts[txns[t].posts[p].acct].id, <<txns[t].posts[p].val[2]>>>> IN
       CountOf(Rows(db.splits), x) = Cardinality({u \in (DOMAIN txns) \X (1..Len(db.splits)) : u[2] \in DOMAIN txns[u[1]].posts
                                       /\ <<txns[u[1]].src[2], accts[txns[u[1]].posts[u[2]].acct].id, <<txns[u[1]].posts[u[2]].val[2]>>>> = x})
  /\ Cardinality({u \in (DOMAIN txns) \X (1..Len(db.splits)) : u[2] \in DOMAIN txns[u[1]].posts}) = Len(db.splits)
OneEach == Loaded => \A t, u \in DOMAIN txns : t # u => txns[t].src # txns[u].src
Chronological == Loaded => \A t \in 1..Len(txns) - 1 : TimeLt(txns[t].time, txns[t + 1].time) \/ (txns[t].time = txns[t + 1].time /\ txns[t].src[2] < txns[t + 1].src[2])
\* in the order of the table
InOrder == Loaded => \A t \in DOMAIN txns :
  LET mine == SelectSeq(Rows(db.splits), LAMBDA r : r[1] = txns[t].src[2]) IN
  [p \in DOMAIN txns[t].posts |-> <<txns[t].src[2], accts[txns[t].posts[p].acct].id, <<txns[t].posts[p].val[2]>>>>] = mine
TreeKept == Loaded => \A k \in DOMAIN accts :
  LET r == CHOOSE i \in DOMAIN db.accounts : db.accounts[i].id = accts[k].id IN
  IF db.accounts[r].parent = <<>> THEN accts[k].parent = 0 ELSE accts[accts[k].parent].id = db.accounts[r].parent[1]
EveryAccount == phase = "ready" => Len(F.accts) = Len(db.accounts)
Balances == phase = "ready" => \A t \in DOMAIN F.x : BalSum(<<>>, [i \in DOMAIN F.x[t].posts |-> F.x[t].posts[i].val]) = <<>>
=============================================================================
