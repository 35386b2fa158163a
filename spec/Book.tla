-------------------------------- MODULE Book ------------------------------
(* How a ledger is computed from what was read (Ledger.Fill): omitted      *)
(* amounts, running balances, assertions, automatic prices, and transfer   *)
(* postings.                                                               *)
(*                                                                         *)
(* F.x     transactions: [time, posts]; posts: [acct, time, val, price,    *)
(*         asrt, bal, known]: time is the date of the posting; known tells *)
(*         whether its amount is known yet                                 *)
(* F.accts accounts in their final order (positions in the source), depth  *)
(*         first                                                           *)
(* F.list  for every account its postings <<transaction, posting>>, in     *)
(*         order of date                                                   *)
(* F.pos   for every account, how many postings have their balance         *)
(* F.next  the next transaction to resolve                                 *)
(* F.auto  automatic prices: [time, cur, val]                              *)
(* F.err   why the ledger is refused ("": it is not)                       *)
EXTENDS Integers, Sequences, Text, BigNum, Calendar, Balance, TLC

\* positions in seq of accounts (with field parent) of the children of a, in order
ChildrenOf(accts, a) == SelectSeq([i \in DOMAIN accts |-> i], LAMBDA i : accts[i].parent = a)

RECURSIVE Preorder(_, _)
RECURSIVE PreorderAll(_, _)
PreorderAll(accts, kids) == IF kids = <<>> THEN <<>> ELSE Preorder(accts, kids[1]) \o PreorderAll(accts, Tail(kids))
Preorder(accts, a) == <<a>> \o PreorderAll(accts, ChildrenOf(accts, a))
DepthFirst(accts) == PreorderAll(accts, ChildrenOf(accts, 0))

\* stable sort of a sequence, given the strict order of its elements
StableSort(s, Before(_, _)) ==
  LET idx == SortSeq([i \in DOMAIN s |-> i],
                     LAMBDA i, j : Before(s[i], s[j]) \/ (~Before(s[j], s[i]) /\ i < j))
  IN [k \in DOMAIN s |-> s[idx[k]]]

\* all the postings of a sequence of transactions, <<transaction, posting>>
RECURSIVE AllPosts(_, _)
AllPosts(x, t) == IF t > Len(x) THEN <<>> ELSE [p \in DOMAIN x[t].posts |-> <<t, p>>] \o AllPosts(x, t + 1)

PostTime(x, tp) == x[tp[1]].posts[tp[2]].time

\* txns, accts: as in Journal
StartBook(txns0, accts) ==
  LET txns == StableSort(txns0, LAMBDA a, b : TimeLt(a.time, b.time))
      x    == [t \in DOMAIN txns |->
                 [time |-> txns[t].time,
                  posts |-> [p \in DOMAIN txns[t].posts |->
                    LET q == txns[t].posts[p] IN
                    [acct |-> q.acct, time |-> IF q.time = NoDate THEN txns[t].time ELSE q.time,
                     val |-> q.val, price |-> q.price, asrt |-> q.asrt, bal |-> <<>>,
                     known |-> q.val[1] # 0]]]]
      all  == AllPosts(x, 1)
  IN [x |-> x, txns |-> txns, accts |-> DepthFirst(accts),
      list |-> [a \in DOMAIN accts |->
                  StableSort(SelectSeq(all, LAMBDA tp : x[tp[1]].posts[tp[2]].acct = a),
                             LAMBDA u, v : TimeLt(PostTime(x, u), PostTime(x, v)))],
      pos |-> [a \in DOMAIN accts |-> 0],
      next |-> 1, auto |-> <<>>, err |-> ""]

\* What a posting counts for in its transaction
Weight(q) == IF q.price # <<>> THEN q.price ELSE q.val

RECURSIVE SumPosts(_, _, _)
LOCAL SumPosts(posts, i, b) ==
  IF i > Len(posts) THEN b
  ELSE SumPosts(posts, i + 1, IF posts[i].known THEN BalAdd(b, Weight(posts[i])) ELSE b)
RECURSIVE SumFits(_, _, _)
LOCAL SumFits(posts, i, b) ==
  IF i > Len(posts) THEN TRUE
  ELSE IF ~posts[i].known THEN SumFits(posts, i + 1, b)
  ELSE LET b2 == BalAdd(b, Weight(posts[i])) IN BalFits(b2) /\ SumFits(posts, i + 1, b2)

Rate(num, den) == Quo(Mul(U, num), den)

\* The two prices of an amount v1 worth v2, the first one from v1 to v2
BothPrices(time, v1, v2) ==
  SelectSeq(<< [time |-> time, cur |-> v1[1], val |-> <<v2[1], Rate(v2[2], v1[2])>>],
               [time |-> time, cur |-> v2[1], val |-> <<v1[1], Rate(v1[2], v2[2])>>] >>,
            LAMBDA p : InInt64(p.val[2]))

----------------------------- (* transactions *) -----------------------------

\* An assertion without amount: its account has to be computed before
Blocked(F) == \E p \in DOMAIN F.x[F.next].posts :
                LET q == F.x[F.next].posts[p] IN ~q.known /\ q.asrt # <<>>
CanResolve(F) == F.err = "" /\ F.next <= Len(F.x) /\ ~Blocked(F)

Resolve(F) ==
  LET posts == F.x[F.next].posts
      omit  == {p \in DOMAIN posts : ~posts[p].known}
      sum   == SumPosts(posts, 1, <<>>)
      done  == [F EXCEPT !.next = @ + 1]
      give(v) == LET p == CHOOSE p \in omit : TRUE IN
                 [done EXCEPT !.x[F.next].posts[p].val = v, !.x[F.next].posts[p].known = TRUE]
  IN IF Len(posts) > 0 /\ omit # {} /\ \E p, q \in omit : p # q
     THEN [F EXCEPT !.err = "more than one posting without amount"]
     ELSE IF ~SumFits(posts, 1, <<>>) THEN [F EXCEPT !.err = "amounts too large"]
     ELSE IF sum = <<>> THEN (IF omit = {} THEN done ELSE give(<<0, Zero>>))
     ELSE IF omit # {} THEN (IF Len(sum) = 1 THEN give(<<sum[1][1], Neg(sum[1][2])>>)
                             ELSE [F EXCEPT !.err = "two or more currencies to balance"])
     ELSE IF Len(sum) = 2
     THEN [done EXCEPT !.auto = @ \o BothPrices(F.x[F.next].time, sum[1], <<sum[2][1], Neg(sum[2][2])>>)]
     ELSE [F EXCEPT !.err = "not balanced"]

------------------------------- (* accounts *) -------------------------------

\* The balance of account a after its first n postings, as computed
BalAfter(F, a, n) ==
  IF n = 0 THEN <<>> ELSE LET tp == F.list[a][n] IN F.x[tp[1]].posts[tp[2]].bal

NextPost(F, a) == LET tp == F.list[a][F.pos[a] + 1] IN F.x[tp[1]].posts[tp[2]]
CanPass(F, a) == /\ F.err = "" /\ F.pos[a] < Len(F.list[a])
                 /\ LET q == NextPost(F, a) IN q.known \/ q.asrt # <<>>

Pass(F, a) ==
  LET tp   == F.list[a][F.pos[a] + 1]
      q    == NextPost(F, a)
      prev == BalAfter(F, a, F.pos[a])
      v    == IF q.known THEN q.val ELSE <<q.asrt[1], Sub(q.asrt[2], AmountIn(prev, q.asrt[1]))>>
      bal  == BalAdd(prev, v)
  IN IF ~Fits(v) \/ ~BalFits(bal) THEN [F EXCEPT !.err = "balance too large"]
     ELSE IF q.asrt # <<>> /\ AmountIn(bal, q.asrt[1]) # q.asrt[2] THEN [F EXCEPT !.err = "wrong assertion"]
     ELSE [F EXCEPT !.x[tp[1]].posts[tp[2]].val = v, !.x[tp[1]].posts[tp[2]].known = TRUE,
                    !.x[tp[1]].posts[tp[2]].bal = bal, !.pos[a] = @ + 1]

Finished(F) == F.err = "" /\ F.next > Len(F.x) /\ \A a \in DOMAIN F.list : F.pos[a] = Len(F.list[a])
Stuck(F) == F.err = "" /\ ~Finished(F) /\ ~CanResolve(F) /\ \A a \in DOMAIN F.list : ~CanPass(F, a)

-------------------------------- (* prices *) --------------------------------

RECURSIVE SplitPrices(_, _)
LOCAL SplitPrices(F, all) ==
  IF all = <<>> THEN <<>>
  ELSE LET q == F.x[all[1][1]].posts[all[1][2]]
           r == SplitPrices(F, Tail(all))
       IN IF q.price = <<>> THEN r
          ELSE IF IsZero(q.price[2]) \/ IsZero(q.val[2]) THEN r
          ELSE BothPrices(q.time, q.val, q.price) \o r

AutoPrices(F) == F.auto \o SplitPrices(F, AllPosts(F.x, 1))

\* All the prices, given the written ones ([time, cur, val, ...])
AllPrices(F, written) ==
  StableSort([i \in DOMAIN written |-> [time |-> written[i].time, cur |-> written[i].cur, val |-> written[i].val]]
             \o AutoPrices(F), LAMBDA a, b : TimeLt(a.time, b.time))

------------------------------- (* transfers *) ------------------------------

\* Transfer postings of transaction t: [time, val]
RECURSIVE TransfersOf(_, _)
TransfersOf(t, p) ==
  IF p > Len(t.posts) THEN <<>>
  ELSE (IF t.posts[p].time = t.time THEN <<>>
        ELSE << [time |-> t.posts[p].time, val |-> <<t.posts[p].val[1], Neg(t.posts[p].val[2])>>],
                [time |-> t.time, val |-> t.posts[p].val] >>)
       \o TransfersOf(t, p + 1)

\* All the transfer postings, in order of date
RECURSIVE TransfersFrom(_, _)
LOCAL TransfersFrom(x, i) == IF i > Len(x) THEN <<>> ELSE TransfersOf(x[i], 1) \o TransfersFrom(x, i + 1)
AllTransfers(F) == StableSort(TransfersFrom(F.x, 1), LAMBDA a, b : TimeLt(a.time, b.time))
RECURSIVE TransfersFitFrom(_, _, _)
LOCAL TransfersFitFrom(ts, i, b) ==
  IF i > Len(ts) THEN TRUE
  ELSE LET b2 == BalAdd(b, ts[i].val) IN BalFits(b2) /\ TransfersFitFrom(ts, i + 1, b2)
TransfersFit(F) == TransfersFitFrom(AllTransfers(F), 1, <<>>)
=============================================================================
