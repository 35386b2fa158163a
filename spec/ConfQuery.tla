----------------------------- MODULE ConfQuery ----------------------------
(* Conformance: questions about ledgers, and the answers of the code.  The *)
(* ledger (C.obs) is the one that the code made.                           *)
EXTENDS Integers, Sequences, Text, BigNum, Calendar, Balance, Convert, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, q, bad, done   \* case, question, questions badly answered
vars == <<cs, q, bad, done>>

C == Cases[cs]
O == C.obs

\* all the postings of account k
RECURSIVE PostsOf(_, _)
PostsOf(k, t) ==
  IF t > Len(O.txns) THEN <<>>
  ELSE SelectSeq(O.txns[t].posts, LAMBDA p : p.acct = k) \o PostsOf(k, t + 1)

Vals(ps) == [i \in DOMAIN ps |-> ps[i].val]
BalanceAt(k, when) ==   \* when = NoDate: the current one
  BalSum(<<>>, Vals(SelectSeq(PostsOf(k, 1), LAMBDA p : when = NoDate \/ TimeLe(p.time, when))))

Positions(P(_)) == SelectSeq([t \in DOMAIN O.txns |-> t], P)

RightAnswer(x) ==
  CASE x.kind = "balance"  -> x.res = "ok" /\ SameBalance(x.bal, BalanceAt(x.acct, x.time))
    [] x.kind = "inacct"   -> x.res = "ok" /\ x.txns = Positions(LAMBDA t : \E p \in DOMAIN O.txns[t].posts : O.txns[t].posts[p].acct = x.acct)
    [] x.kind = "interval" -> x.res = "ok" /\ x.txns = Positions(LAMBDA t : TimeLe(x.time, O.txns[t].time) /\ TimeLe(O.txns[t].time, x.time2))
    [] x.kind = "account"  -> x.res = "ok" /\ x.found = x.acct
    [] x.kind = "convert"  ->
         LET r == Converted(O.prices, x.val, x.time, x.cur) IN
         IF ~r.ok THEN x.res = "error" \/ (~r.fits /\ x.res \in {"ok", "error"})
         ELSE IF ~r.fits THEN x.res \in {"ok", "error"}
         ELSE x.res = "ok" /\ x.answer = <<x.cur, r.amt>>

Init == cs \in DOMAIN Cases /\ q = 1 /\ bad = <<>> /\ done = FALSE
Ask == /\ ~done /\ q <= Len(C.queries)
       /\ bad' = IF RightAnswer(C.queries[q]) THEN bad ELSE Append(bad, ToString(q))
       /\ q' = q + 1 /\ UNCHANGED <<cs, done>>
Judge == /\ ~done /\ q > Len(C.queries) /\ done' = TRUE
         /\ PrintT(<<"@@", C.id, IF bad = <<>> THEN "accepted" ELSE "rejected", bad, "ok", Len(C.queries)>>)
         /\ UNCHANGED <<cs, q, bad>>
Next == Ask \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
