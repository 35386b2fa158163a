------------------------------- MODULE Export -----------------------------
(* What an exported ledger has in common with the one it comes from:       *)
(* everything but who wrote the prices (automatic ones are written in the  *)
(* exported journal, and computed again), where things come from, and the  *)
(* decimal mark of currencies that nobody has used.                        *)
EXTENDS Integers, Sequences, Text, BigNum, Balance

Trimmed(s) == Trim(s)

SameStyle(a, b) == /\ a.name = b.name /\ a.before = b.before /\ a.nospace = b.nospace /\ a.prec = b.prec
                   /\ a.thou = b.thou /\ a.dec \in {0, b.dec}
                   /\ Trimmed(a.isin) = Trimmed(b.isin) /\ a.comments = b.comments

SameCurrs(A, B) == /\ Len(A.currs) = Len(B.currs)
                   /\ \A i \in DOMAIN A.currs : SameStyle(A.currs[i], B.currs[i])
                   /\ A.dflt = B.dflt
                   /\ A.dflt = -1 => SameStyle(A.unnamed, B.unnamed)

SameAccts(A, B) == /\ Len(A.accts) = Len(B.accts)
                   /\ \A k \in DOMAIN A.accts :
                        LET a == A.accts[k] b == B.accts[k] IN
                        /\ a.full = b.full /\ a.name = b.name /\ a.parent = b.parent /\ a.kids = b.kids /\ a.level = b.level
                        /\ Trimmed(a.code) = Trimmed(b.code) /\ a.comments = b.comments /\ a.posts = b.posts

SamePost(p, q) == /\ p.acct = q.acct /\ p.time = q.time /\ p.val = q.val /\ p.price = q.price /\ p.asrt = q.asrt
                  /\ p.comments = q.comments /\ p.auto = q.auto /\ SameBalance(p.bal, q.bal)
SameTxns(A, B) == /\ Len(A.txns) = Len(B.txns)
                  /\ \A t \in DOMAIN A.txns :
                       LET x == A.txns[t] y == B.txns[t] IN
                       /\ x.time = y.time /\ Trimmed(x.desc) = Trimmed(y.desc) /\ x.comments = y.comments
                       /\ Len(x.posts) = Len(y.posts)
                       /\ \A p \in DOMAIN x.posts : SamePost(x.posts[p], y.posts[p])

PriceSet(ps) == {<<ps[i].time, ps[i].cur, ps[i].val>> : i \in DOMAIN ps}
Whole(p) == <<p.time, p.cur, p.val, p.comments>>
Times(s, e) == Len(SelectSeq(s, LAMBDA x : x = e))
WholeOnes(ps, auto) == LET w == SelectSeq(ps, LAMBDA p : ~p.auto \/ auto) IN [i \in DOMAIN w |-> Whole(w[i])]
\* the written ones of A, and maybe the automatic ones, are the written ones of B
SameWritten(pa, pb) ==
  LET a == WholeOnes(pa, FALSE) all == WholeOnes(pa, TRUE) b == WholeOnes(pb, FALSE) IN
  /\ \A i \in DOMAIN a : Times(b, a[i]) >= Times(a, a[i])
  /\ \A i \in DOMAIN b : Times(all, b[i]) >= Times(b, b[i])
SamePrices(A, B) == PriceSet(A.prices) = PriceSet(B.prices) /\ SameWritten(A.prices, B.prices)

\* Exported again: the same lines, and maybe some prices (isprice) again
RECURSIVE Again(_, _, _, _)
Again(l1, l2, i, prices) ==
  IF l2 = <<>> THEN i > Len(l1)
  ELSE IF i <= Len(l1) /\ l1[i] = l2[1] THEN Again(l1, Tail(l2), i + 1, prices)
  ELSE l2[1] \in prices /\ Again(l1, Tail(l2), i, prices)
SameText(l1, isprice, l2) == Again(l1, l2, 1, {l1[i] : i \in {j \in DOMAIN l1 : isprice[j]}})
=============================================================================
