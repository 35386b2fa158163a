----------------------------- MODULE ConfExport ---------------------------
(* Conformance: a ledger (C.obs) was exported, and the specification reads *)
(* the exported journal (C.files); the code read it too (C.obs2, if C.res2 *)
(* is "ok"), and exported that one again.  C.lines, C.lines2 and C.printed *)
(* are the lines of the exported texts and of the one that the command     *)
(* line printed, as numbers; C.isprice tells which ones are prices.        *)
EXTENDS ConfJournal, Export

\* O has to be what the exported text says
TextPricesOK ==
  /\ LET ps == AllPrices(F, J.prices) IN PriceSet(O.prices) = PriceSet([i \in DOMAIN ps |-> [time |-> ps[i].time, cur |-> ps[i].cur, val |-> Norm(ps[i].val)]])
  /\ SameWritten(O.prices, [i \in DOMAIN J.prices |-> [time |-> J.prices[i].time, cur |-> J.prices[i].cur, val |-> Norm(J.prices[i].val),
                                                      comments |-> J.prices[i].comments, auto |-> FALSE]])

TextCurrsOK ==
  /\ Len(O.currs) = Len(J.currs)
  /\ \A i \in DOMAIN J.currs : SameStyle(O.currs[i], J.currs[i])
  /\ O.dflt = J.dflt
  /\ J.dflt = -1 => SameStyle(O.unnamed, J.unnamed.c)

TextCommentsOK ==
  /\ Shape /\ Len(O.accts) = NA + 1
  /\ \A k \in 1..NA : /\ O.accts[k].comments = J.accts[F.accts[k]].comments
                      /\ Trim(O.accts[k].code) = Trim(J.accts[F.accts[k]].code)
  /\ \A t \in DOMAIN F.x : /\ O.txns[t].comments = F.txns[t].comments
                           /\ Trim(O.txns[t].desc) = Trim(F.txns[t].desc)
                           /\ \A p \in DOMAIN F.x[t].posts : OPosts(t)[p].comments = F.txns[t].posts[p].comments

O2 == C.obs2
Says(g) ==
  CASE g = "text: accounts"     -> TreeOK
    [] g = "text: values"       -> ValuesOK
    [] g = "text: prices and assertions of postings" -> AnnotOK
    [] g = "text: balances"     -> BalancesOK
    [] g = "text: times"        -> TimesOK
    [] g = "text: comments"     -> TextCommentsOK
    [] g = "text: currencies"   -> TextCurrsOK
    [] g = "text: prices"       -> TextPricesOK
    [] g = "accounts"           -> SameAccts(O, O2)
    [] g = "transactions"       -> SameTxns(O, O2)
    [] g = "currencies"         -> SameCurrs(O, O2)
    [] g = "prices"             -> SamePrices(O, O2)
    [] g = "exported again"     -> SameText(C.lines, C.isprice, C.lines2)
    [] g = "printed"            -> C.printed = C.lines
TextGroups == <<"text: accounts", "text: values", "text: prices and assertions of postings", "text: balances", "text: times", "text: comments", "text: currencies", "text: prices">>
LedgerGroups == <<"accounts", "transactions", "currencies", "prices", "exported again", "printed">>
Wrong(groups) == SelectSeq(groups, LAMBDA g : ~Says(g))
WrongExport == IF ~Ready THEN <<"the text cannot be read">> ELSE IF C.res2 # "ok" THEN <<"not opened">> ELSE Wrong(TextGroups) \o Wrong(LedgerGroups)

JudgeExport ==
  /\ verdict = "pending" /\ phase \in {"ready", "refused"}
  /\ verdict' = IF WrongExport = <<>> THEN "accepted" ELSE "rejected"
  /\ PrintT(<<"@@", C.id, verdict', WrongExport, Why, Len(J.bad)>>)
  /\ UNCHANGED <<vars, cs, round>>
NextExport == Step \/ JudgeExport
SpecExport == Init /\ [][NextExport]_allVars
=============================================================================
