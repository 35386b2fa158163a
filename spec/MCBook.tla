------------------------------- MODULE MCBook ------------------------------
(* Small ledgers, exhaustively (or a sample of them, see Sample): whatever   *)
(* the order in which amounts are inferred and balances computed, a ledger *)
(* gets the same result, and the result has the properties it has to have. *)
(* Every ledger is also printed, to be supplied to the code.               *)
EXTENDS Ledger, Json, IOUtils, FiniteSets

CONSTANTS NTxns,     \* numbers of transactions
          NPosts,    \* numbers of postings of a transaction
          TxnDays,   \* dates of transactions
          PostDays,  \* dates of postings (-1: none)
          Values,    \* <<currency, amount>>; <<0, 0>> is an omitted one
          Asserts,   \* the same, with <<0, 0>> for none
          Prices,    \* the same
          Sample,    \* how many ledgers (0: all)
          Spoiled    \* whether transactions that cannot be right are wanted too

\* values for the constants
EnvSample == IF "SAMPLE" \in DOMAIN IOEnv THEN atoi(IOEnv.SAMPLE) ELSE 50
NoDays == {-1}
SomeDays == {-1, 0, 1, 2}
ValuesOne == {<<0, 0>>, <<1, 1>>, <<1, -1>>}
ValuesTwo == {<<0, 0>>, <<1, 1>>, <<1, -3>>, <<2, -1>>, <<2, 7>>}
AssertsNone == {<<0, 0>>}
AssertsFew == {<<0, 0>>, <<1, 0>>}
AssertsOne == {<<0, 0>>, <<1, 0>>, <<1, 1>>}
AssertsTwo == {<<0, 0>>, <<1, 1>>, <<2, 0>>}
NoPrices == {<<0, 0>>}
PricesTwo == {<<0, 0>>, <<1, 2>>, <<2, 1>>, <<2, -7>>, <<2, 0>>}

VARIABLES start      \* the book at the beginning
mcVars == <<vars, start>>

Accts == << [full |-> <<65>>, name |-> <<65>>, parent |-> 0], [full |-> <<65, 58, 66>>, name |-> <<66>>, parent |-> 1] >>

LOCAL V(v) == IF v[1] = 0 THEN NoValue ELSE <<v[1], Num(v[2])>>
LOCAL O(v) == IF v[1] = 0 THEN <<>> ELSE V(v)
LOCAL Day(d) == IF d < 0 THEN NoDate ELSE <<d, 0>>

\* of postings without amount, no price
PostSet == {q \in [acct : {1, 2}, val : Values, day : PostDays, asrt : Asserts, price : Prices] :
              (q.val[1] = 0 => q.price[1] = 0) /\ q.price[1] # q.val[1]}
   \cup {q \in [acct : {1, 2}, val : Values, day : PostDays, asrt : Asserts, price : {<<0, 0>>}] : TRUE}

\* Could a transaction with these postings be right?
LOCAL Omits(ps) == {i \in DOMAIN ps : ps[i].val[1] = 0}
LOCAL Free(ps) == {i \in Omits(ps) : ps[i].asrt[1] = 0}
RECURSIVE SumIn(_, _, _)
LOCAL SumIn(ps, c, i) ==
  IF i > Len(ps) THEN 0
  ELSE (LET w == IF ps[i].price[1] # 0 THEN ps[i].price ELSE ps[i].val IN IF w[1] = c THEN w[2] ELSE 0) + SumIn(ps, c, i + 1)
LOCAL Plausible(ps) ==
  LET odd == {c \in 1..3 : SumIn(ps, c, 1) # 0} IN
  \/ Cardinality(Free(ps)) <= 1 /\ Omits(ps) # {}
  \/ odd = {}
  \/ Cardinality(odd) = 2

\* (with parameters, for TLC not to enumerate everything beforehand)
PostSeqs(k) == {ps \in [1..k -> PostSet] : Spoiled \/ Plausible(ps)}
TxnSet(ks) == [day : TxnDays, posts : UNION {PostSeqs(k) : k \in ks}]
RECURSIVE RandomPosts(_, _)
RandomPosts(k, tries) ==
  LET ps == TLCEval([i \in 1..k |-> RandomElement(PostSet)]) IN
  IF Spoiled \/ Plausible(ps) \/ tries = 0 THEN ps ELSE RandomPosts(k, tries - 1)
RandomTxn(i) == [day |-> RandomElement(TxnDays), posts |-> RandomPosts(RandomElement(NPosts), 20)]
LedgersOf(n) == IF Sample = 0 THEN [1..n -> TxnSet(NPosts)] ELSE {TLCEval([i \in 1..n |-> RandomTxn(i)]) : k \in 1..Sample}

LOCAL Source(l) ==
  [t \in DOMAIN l |-> [time |-> Day(l[t].day), desc |-> <<>>, comments |-> <<>>, src |-> <<t, 1>>,
     posts |-> [p \in DOMAIN l[t].posts |-> LET q == l[t].posts[p] IN
       [acct |-> q.acct, time |-> Day(q.day), val |-> V(q.val), price |-> O(q.price), asrt |-> O(q.asrt),
        comments |-> <<>>, src |-> <<t, p + 1>>]]]]

MCInit ==
  /\ \E n \in NTxns : \E l \in LedgersOf(n) :
       LET txns == Source(l) IN
       /\ J = [EmptyJournal EXCEPT !.accts = Accts, !.txns = txns]
       /\ F = StartBook(txns, Accts) /\ start = StartBook(txns, Accts)
       /\ PrintT(<<"@@", ToJson(l)>>)
  /\ phase = "filling" /\ files = <<>> /\ stack = <<>>
MCNext == phase = "filling" /\ Fill /\ UNCHANGED start
MCSpec == MCInit /\ [][MCNext]_mcVars

-----------------------------------------------------------------------------
\* One schedule
RECURSIVE Run(_)
Run(B) ==
  IF B.err # "" \/ Finished(B) THEN B
  ELSE IF CanResolve(B) THEN Run(Resolve(B))
  ELSE IF \E a \in DOMAIN B.list : CanPass(B, a) THEN Run(Pass(B, CHOOSE a \in DOMAIN B.list : CanPass(B, a)))
  ELSE [B EXCEPT !.err = "cannot be resolved"]

SameAuto(A, B) == LET a == AutoPrices(A) b == AutoPrices(B) IN
  Len(a) = Len(b) /\ {a[i] : i \in DOMAIN a} = {b[i] : i \in DOMAIN b}

Ended == phase \in {"ready", "refused"}
Confluent == Ended => LET R == Run(start) IN
  IF phase = "ready" THEN R.err = "" /\ R.x = F.x /\ SameAuto(R, F)
  ELSE R.err # "" \/ ~TransfersFit(R)

\* every transaction balances, or exchanges two currencies
Balanced == phase = "ready" =>
  \A t \in DOMAIN F.x : LET s == BalSum(<<>>, [i \in DOMAIN F.x[t].posts |-> Weight(F.x[t].posts[i])]) IN
    Len(s) \in {0, 2} /\ (Len(s) = 2 => \A p \in DOMAIN F.x[t].posts : start.x[t].posts[p].known \/ start.x[t].posts[p].asrt # <<>>)

\* what was written stays, and all is known
Kept == phase = "ready" =>
  \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts :
    /\ F.x[t].posts[p].known
    /\ start.x[t].posts[p].known => F.x[t].posts[p].val = start.x[t].posts[p].val
    /\ F.txns[t].src[1] \in DOMAIN J.txns /\ F.txns[t] = J.txns[F.txns[t].src[1]]
InOrder == \A t \in 1..Len(F.txns) - 1 :
  \/ TimeLt(F.txns[t].time, F.txns[t + 1].time)
  \/ F.txns[t].time = F.txns[t + 1].time /\ F.txns[t].src[1] < F.txns[t + 1].src[1]

\* running balances, from the definition
Running == phase = "ready" =>
  \A a \in DOMAIN F.list : \A k \in DOMAIN F.list[a] :
    SameBalance(F.x[F.list[a][k][1]].posts[F.list[a][k][2]].bal,
                BalSum(<<>>, [i \in 1..k |-> F.x[F.list[a][i][1]].posts[F.list[a][i][2]].val]))
Asserted == phase = "ready" =>
  \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts :
    LET q == F.x[t].posts[p] IN q.asrt # <<>> => AmountIn(q.bal, q.asrt[1]) = q.asrt[2]

\* on every date, all the transactions of the ledger with their transfers balance as they would on their own dates
Days == {F.x[t].time : t \in DOMAIN F.x} \cup UNION {{F.x[t].posts[p].time : p \in DOMAIN F.x[t].posts} : t \in DOMAIN F.x}
Transferred == phase = "ready" =>
  \A t \in DOMAIN F.x : \A d \in Days :
    LET tr == TransfersOf(F.x[t], 1)
        on(s) == BalSum(<<>>, [i \in DOMAIN s |-> s[i].val])
        here == SelectSeq(F.x[t].posts, LAMBDA q : q.time = d)
        moved == SelectSeq(tr, LAMBDA q : q.time = d)
    IN SameBalance(BalSum(on(here), [i \in DOMAIN moved |-> moved[i].val]), IF d = F.x[t].time THEN on(F.x[t].posts) ELSE <<>>)

\* computing again changes nothing
Again == phase = "ready" =>
  LET txns == [t \in DOMAIN F.txns |-> [F.txns[t] EXCEPT !.posts = [p \in DOMAIN F.txns[t].posts |->
                [F.txns[t].posts[p] EXCEPT !.val = IF F.x[t].posts[p].val[1] = 0 THEN <<-3, Zero>> ELSE F.x[t].posts[p].val]]]]
      R == Run(StartBook(txns, Accts))
  IN /\ R.err = ""
     /\ \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts :
          SameBalance(R.x[t].posts[p].bal, F.x[t].posts[p].bal) /\ R.x[t].posts[p].time = F.x[t].posts[p].time
     /\ Len(AutoPrices(R)) = Len(AutoPrices(F))

(* With one currency and no prices: a ledger is accepted only if there is  *)
(* one way to give amounts to the postings that have none, and refused for *)
(* not being balanced or for an assertion only if there is none.           *)
OneCurrency == \A t \in DOMAIN start.x : \A p \in DOMAIN start.x[t].posts :
  start.x[t].posts[p].val[1] \in {0, 1} /\ start.x[t].posts[p].price = <<>> /\ (start.x[t].posts[p].asrt # <<>> => start.x[t].posts[p].asrt[1] = 1)
Unknown == {tp \in {<<t, p>> : t \in DOMAIN start.x, p \in 1..3} : tp[2] \in DOMAIN start.x[tp[1]].posts /\ ~start.x[tp[1]].posts[tp[2]].known}
LOCAL Range == -6..6
LOCAL ToInt(v) == v[1] * (IF Len(v) > 1 THEN v[2] ELSE 0)     \* small numbers only
LOCAL Amount(s, tp) == IF tp \in DOMAIN s THEN s[tp] ELSE ToInt(start.x[tp[1]].posts[tp[2]].val[2])
RECURSIVE SumOver(_, _)
LOCAL SumOver(s, tps) == IF tps = <<>> THEN 0 ELSE Amount(s, tps[1]) + SumOver(s, Tail(tps))
Solution(s) ==
  /\ \A t \in DOMAIN start.x : SumOver(s, [p \in DOMAIN start.x[t].posts |-> <<t, p>>]) = 0
  /\ \A a \in DOMAIN start.list : \A k \in DOMAIN start.list[a] :
       LET q == start.x[start.list[a][k][1]].posts[start.list[a][k][2]] IN
       q.asrt # <<>> => SumOver(s, SubSeq(start.list[a], 1, k)) = ToInt(q.asrt[2])
Solved == (Ended /\ OneCurrency /\ Cardinality(Unknown) <= 3) =>
  IF phase = "ready"
  THEN LET sol == [tp \in Unknown |-> ToInt(F.x[tp[1]].posts[tp[2]].val[2])] IN
       Solution(sol) /\ \A s \in [Unknown -> Range] : Solution(s) => s = sol
  ELSE F.err \in {"not balanced", "wrong assertion"} => \A s \in [Unknown -> Range] : ~Solution(s)
=============================================================================
