---------------------------- MODULE ConfJournal ---------------------------
(* Conformance: every case is a journal and the ledger that the code made  *)
(* of it; the specification reads the same journal and has to make the     *)
(* same ledger, in what the groups of the case name.                       *)
EXTENDS Ledger, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, verdict, round
allVars == <<vars, cs, verdict, round>>

C == Cases[cs]
O == C.obs

\* Most cases start with a journal; others, with what a backend (C.built) supplies
Init == /\ cs \in DOMAIN Cases
        /\ verdict = "pending" /\ round = 0
        /\ IF "built" \in DOMAIN Cases[cs]
           THEN LET b == Cases[cs].built IN
                /\ phase = "filling" /\ files = <<>> /\ stack = <<>>
                /\ J = [EmptyJournal EXCEPT !.accts = b.accts, !.txns = b.txns, !.prices = b.prices, !.currs = b.currs,
                                            !.dflt = b.dflt]
                /\ F = StartBook(b.txns, b.accts)
           ELSE LedgerInit(Cases[cs].files)

-----------------------------------------------------------------------------
(* Once a ledger is ready, it may be edited and computed again, in rounds  *)
(* (C.rounds).  Amounts are then what was computed before.                 *)

Rounds == IF "rounds" \in DOMAIN C THEN C.rounds ELSE <<>>

\* The transactions as they are after the ledger was computed; their accounts are then in their final order
Computed == [t \in DOMAIN F.txns |-> [F.txns[t] EXCEPT !.posts = [p \in DOMAIN F.txns[t].posts |->
               [F.txns[t].posts[p] EXCEPT !.val = IF F.x[t].posts[p].val[1] = 0 THEN <<-3, Zero>> ELSE F.x[t].posts[p].val,
                                          !.acct = PosOf(@)]]]]
InOrder == [k \in DOMAIN F.accts |-> [J.accts[F.accts[k]] EXCEPT !.parent = IF @ = 0 THEN 0 ELSE PosOf(@)]]

\* <<>> or <<name, amount>>
NamedVal(v) == IF v = <<>> THEN NoValue ELSE <<FindCurr(J.currs, v[1], 1), v[2]>>
NamedOpt(v) == IF v = <<>> THEN <<>> ELSE NamedVal(v)
NewPost(D, p) == [acct |-> FindAcct(D.accts, p.full, 1), time |-> p.time, val |-> NamedVal(p.val), price |-> NamedOpt(p.price),
                  asrt |-> NamedOpt(p.asrt), comments |-> <<>>, src |-> p.src]
NewTxn(D, t) == [time |-> t.time, desc |-> t.desc, comments |-> <<>>, src |-> t.src,
                 posts |-> [i \in DOMAIN t.posts |-> NewPost(D, t.posts[i])]]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* The full names of accounts follow from their names and parents
RECURSIVE FullOf(_, _)
FullOf(accts, a) == IF accts[a].parent = 0 THEN accts[a].name ELSE FullOf(accts, accts[a].parent) \o <<58>> \o accts[a].name
Renamed(accts) == [a \in DOMAIN accts |-> [accts[a] EXCEPT !.full = FullOf(accts, a)]]

\* D: [txns, prices, accts]
Edited(D, e) ==
  CASE e.op = "add"    -> [D EXCEPT !.txns = IF e.front THEN <<NewTxn(D, e.txn)>> \o @ ELSE Append(@, NewTxn(D, e.txn))]
    [] e.op = "remove" -> [D EXCEPT !.txns = Without(@, e.t)]
    [] e.op = "value"  -> [D EXCEPT !.txns[e.t].posts[e.p].val = NamedVal(e.val)]
    [] e.op = "time"   -> [D EXCEPT !.txns[e.t].time = e.time]
    [] e.op = "ptime"  -> [D EXCEPT !.txns[e.t].posts[e.p].time = e.time]
    [] e.op = "acct"   -> [D EXCEPT !.txns[e.t].posts[e.p].acct = FindAcct(D.accts, e.full, 1)]
    [] e.op = "asrt"   -> [D EXCEPT !.txns[e.t].posts[e.p].asrt = NamedOpt(e.val)]
    [] e.op = "price"  -> [D EXCEPT !.txns[e.t].posts[e.p].price = NamedOpt(e.val)]
    [] e.op = "addpost" -> [D EXCEPT !.txns[e.t].posts = Append(@, NewPost(D, e.post))]
    [] e.op = "delpost" -> [D EXCEPT !.txns[e.t].posts = Without(@, e.p)]
    [] e.op = "newprice" -> [D EXCEPT !.prices = Append(@, [time |-> e.time, cur |-> FindCurr(J.currs, e.cur, 1),
                                                            val |-> NamedVal(e.val), comments |-> <<>>, src |-> e.src])]
    [] e.op = "delprice" -> [D EXCEPT !.prices = Without(@, e.p)]
    [] e.op = "newacct" -> [D EXCEPT !.accts = Renamed(Append(@, [name |-> e.name, full |-> e.name, code |-> e.code, comments |-> <<>>,
                              src |-> e.src, parent |-> IF e.to = <<>> THEN 0 ELSE FindAcct(D.accts, e.to, 1)]))]
    [] e.op = "move"    -> [D EXCEPT !.accts = Renamed([@ EXCEPT ![FindAcct(D.accts, e.full, 1)].parent =
                              IF e.to = <<>> THEN 0 ELSE FindAcct(D.accts, e.to, 1)])]
    [] e.op = "rename"  -> [D EXCEPT !.accts = Renamed([@ EXCEPT ![FindAcct(D.accts, e.full, 1)].name = e.name])]
RECURSIVE EditedAll(_, _, _)
EditedAll(D, es, i) == IF i > Len(es) THEN D ELSE EditedAll(Edited(D, es[i]), es, i + 1)

Edit ==
  /\ verdict = "pending" /\ phase = "ready" /\ round < Len(Rounds)
  /\ LET D == EditedAll([txns |-> Computed, prices |-> StableSort(J.prices, LAMBDA a, b : TimeLt(a.time, b.time)), accts |-> InOrder],
                        Rounds[round + 1], 1) IN
     /\ J' = [J EXCEPT !.txns = D.txns, !.prices = D.prices, !.accts = D.accts] /\ F' = StartBook(D.txns, D.accts)
  /\ round' = round + 1 /\ phase' = "filling" /\ UNCHANGED <<files, stack, cs, verdict>>

-----------------------------------------------------------------------------

\* one schedule is enough here
FillOne ==
  IF CanResolve(F) THEN ResolveTxn
  ELSE IF \E a \in DOMAIN F.list : CanPass(F, a)
  THEN PassAccount(CHOOSE a \in DOMAIN F.list : CanPass(F, a))
  ELSE FillStuck \/ FillDone

\* A line that is too long may also be read, by code that is able to (C.files has something shorter in its place)
ReadTooLong == /\ phase = "reading" /\ stack # <<>> /\ ~AtEnd /\ TopFile.kind = "ok" /\ Unreadable
               /\ files' = [files EXCEPT ![Top[1]].toolong = 0]
               /\ UNCHANGED <<phase, J, stack, F>>

Step == /\ verdict = "pending" /\ phase \notin {"ready", "refused"}
        /\ \/ OpenJournal \/ ReadLine \/ FailToRead \/ ReadTooLong \/ EndOfFile \/ (phase = "filling" /\ FillOne)
        /\ UNCHANGED <<cs, verdict, round>>

-----------------------------------------------------------------------------
(* What the code did, against what it had to do.  O.accts ends with the    *)
(* transfer account; postings with auto are those that were generated.     *)

Ready == phase = "ready"

OutcomeOK == O.res = IF Ready THEN "ok" ELSE "error"

NA == Len(J.accts)

\* What is said of postings and accounts refers to some that are in the ledger
WellFormed ==
  /\ O.accts # <<>>
  /\ \A k \in DOMAIN O.accts : \A i \in DOMAIN O.accts[k].posts :
       LET tp == O.accts[k].posts[i] IN tp[1] \in DOMAIN O.txns /\ tp[2] \in DOMAIN O.txns[tp[1]].posts
  /\ \A t \in DOMAIN O.txns : \A p \in DOMAIN O.txns[t].posts : O.txns[t].posts[p].acct \in DOMAIN O.accts
OPosts(t) == SelectSeq(O.txns[t].posts, LAMBDA p : ~p.auto)
Shape == /\ Len(O.txns) = Len(F.x)
         /\ \A t \in DOMAIN F.x : Len(OPosts(t)) = Len(F.x[t].posts)

TreeOK ==
  /\ Len(O.accts) = NA + 1
  /\ \A k \in 1..NA :
       LET a == F.accts[k] IN
       /\ O.accts[k].full = J.accts[a].full
       /\ O.accts[k].name = J.accts[a].name
       /\ O.accts[k].parent = (IF J.accts[a].parent = 0 THEN 0 ELSE PosOf(J.accts[a].parent))
       /\ O.accts[k].level = Level(a)
       /\ LET ch == ChildrenOf(J.accts, a) IN O.accts[k].kids = [i \in DOMAIN ch |-> PosOf(ch[i])]

ValuesOK ==
  /\ Shape
  /\ \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts :
       LET q == F.x[t].posts[p]
           o == OPosts(t)[p]
       IN o.val = Norm(q.val) /\ o.acct = PosOf(q.acct)

AnnotOK ==   \* posting prices and assertions
  /\ Shape
  /\ \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts :
       LET q == F.x[t].posts[p]
           o == OPosts(t)[p]
       IN /\ o.price = IF q.price = <<>> THEN <<>> ELSE Norm(q.price)
          /\ o.asrt = IF q.asrt = <<>> THEN <<>> ELSE Norm(q.asrt)

ListsOK ==
  /\ Len(O.accts) >= NA
  /\ \A k \in 1..NA : O.accts[k].posts = F.list[F.accts[k]]

BalancesOK ==
  /\ Shape
  /\ \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts :
       SameBalance(OPosts(t)[p].bal, F.x[t].posts[p].bal)

TimesOK ==
  /\ Shape
  /\ \A t \in DOMAIN F.x :
       /\ O.txns[t].time = F.x[t].time
       /\ \A p \in DOMAIN F.x[t].posts : OPosts(t)[p].time = F.x[t].posts[p].time

Written == SelectSeq(O.prices, LAMBDA p : ~p.auto)
SortedPrices(ps) == StableSort(ps, LAMBDA a, b : TimeLt(a.time, b.time))
OrderOK ==   \* order, and nothing lost or repeated
  /\ Shape
  /\ \A t \in DOMAIN F.x : O.txns[t].src = F.txns[t].src /\ O.txns[t].time = F.x[t].time
  /\ \A t \in DOMAIN F.x : \A p \in DOMAIN F.x[t].posts : OPosts(t)[p].src = F.txns[t].posts[p].src
  /\ Len(Written) = Len(J.prices)
  /\ LET w == SortedPrices(J.prices) IN
     \A i \in DOMAIN w : Written[i].src = w[i].src /\ Written[i].time = w[i].time
  /\ \A i \in 1..Len(O.prices) - 1 : TimeLe(O.prices[i].time, O.prices[i + 1].time)

WrittenPricesOK ==
  LET w == SortedPrices(J.prices) IN
  /\ Len(Written) = Len(w)
  /\ \A i \in DOMAIN w : /\ Written[i].time = w[i].time /\ Written[i].cur = w[i].cur
                         /\ Written[i].val = Norm(w[i].val)

Count(s, e) == Len(SelectSeq(s, LAMBDA x : x = e))
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
AutoOK ==
  LET e == AutoPrices(F)
      o == SelectSeq(O.prices, LAMBDA p : p.auto)
  IN SameBag([i \in DOMAIN e |-> <<e[i].time, e[i].cur, Norm(e[i].val)>>],
             [i \in DOMAIN o |-> <<o[i].time, o[i].cur, o[i].val>>])

SameMarks(o, c) == /\ o.name = c.name /\ o.before = c.before /\ o.nospace = c.nospace /\ o.prec = c.prec
                   /\ o.thou = c.thou /\ o.dec = c.dec
MarksOK ==
  /\ Len(O.currs) = Len(J.currs)
  /\ \A i \in DOMAIN J.currs : SameMarks(O.currs[i], J.currs[i])
  /\ O.dflt = J.dflt
  /\ (J.dflt = -1 \/ \E t \in DOMAIN O.txns : \E p \in DOMAIN O.txns[t].posts :
                        O.txns[t].posts[p].val[1] = -1 /\ O.txns[t].posts[p].val[2][1] # 0) => SameMarks(O.unnamed, J.unnamed.c)

CurrNamesOK ==
  /\ Len(O.currs) = Len(J.currs)
  /\ \A i \in DOMAIN J.currs : O.currs[i].name = J.currs[i].name
  /\ O.dflt = J.dflt

CommentsOK ==
  /\ Shape /\ Len(O.accts) >= NA /\ Len(O.currs) = Len(J.currs) /\ Len(Written) = Len(J.prices)
  /\ \A k \in 1..NA : /\ O.accts[k].comments = J.accts[F.accts[k]].comments
                      /\ Trim(O.accts[k].code) = Trim(J.accts[F.accts[k]].code)
  /\ \A i \in DOMAIN J.currs : /\ O.currs[i].comments = J.currs[i].comments
                               /\ Trim(O.currs[i].isin) = Trim(J.currs[i].isin)
  /\ J.dflt = -1 => /\ O.unnamed.comments = J.unnamed.c.comments
                    /\ Trim(O.unnamed.isin) = Trim(J.unnamed.c.isin)
  /\ \A i \in DOMAIN J.prices : Written[i].comments = J.prices[i].comments
  /\ \A t \in DOMAIN F.x : /\ O.txns[t].comments = F.txns[t].comments
                           /\ \A p \in DOMAIN F.x[t].posts :
                                /\ OPosts(t)[p].comments = F.txns[t].posts[p].comments
                                /\ OPosts(t)[p].time = F.x[t].posts[p].time
DescOK == Shape /\ \A t \in DOMAIN F.x : O.txns[t].desc = F.txns[t].desc

SourcesOK ==  \* the file and line of every entry
  /\ Shape /\ Len(O.accts) >= NA /\ Len(Written) = Len(J.prices)
  /\ \A k \in 1..NA : O.accts[k].src = J.accts[F.accts[k]].src
  /\ \A i \in DOMAIN J.prices : Written[i].src = J.prices[i].src
  /\ \A t \in DOMAIN F.x : /\ O.txns[t].src = F.txns[t].src
                           /\ \A p \in DOMAIN F.x[t].posts : OPosts(t)[p].src = F.txns[t].posts[p].src

(* Transfers, from what the code made only: on every date the postings of  *)
(* a transaction sum to what they would if all had the date of the         *)
(* transaction.                                                            *)
Auto(t) == SelectSeq(O.txns[t].posts, LAMBDA p : p.auto)
Vals(ps) == [i \in DOMAIN ps |-> ps[i].val]
TransfersOK ==
  /\ \A t \in DOMAIN O.txns :
       LET tx  == O.txns[t]
           all == tx.posts
           on(d) == BalSum(<<>>, Vals(SelectSeq(all, LAMBDA p : p.time = d)))
           own == BalSum(<<>>, Vals(OPosts(t)))
       IN /\ \A i \in DOMAIN all : SameBalance(on(all[i].time), IF all[i].time = tx.time THEN own ELSE <<>>)
          /\ SameBalance(on(tx.time), own)
          /\ BalSum(<<>>, Vals(Auto(t))) = <<>>
          /\ \A i \in DOMAIN all : all[i].auto => all[i].acct = Len(O.accts)
          /\ (\A i \in DOMAIN OPosts(t) : OPosts(t)[i].time = tx.time) => Auto(t) = <<>>
  /\ LET xf  == O.accts[Len(O.accts)].posts
         at(i) == O.txns[xf[i][1]].posts[xf[i][2]]
     IN /\ \A i \in DOMAIN xf : at(i).auto
        /\ \A i, j \in DOMAIN xf : i # j => xf[i] # xf[j]
        /\ \A t \in DOMAIN O.txns : \A p \in DOMAIN O.txns[t].posts :
             O.txns[t].posts[p].auto => \E i \in DOMAIN xf : xf[i] = <<t, p>>
        /\ \A i \in 1..Len(xf) - 1 : TimeLe(at(i).time, at(i + 1).time)
        /\ \A i \in DOMAIN xf : SameBalance(at(i).bal, BalSum(<<>>, [k \in 1..i |-> at(k).val]))

(* Running balances and lists of postings, from what the code made only    *)
RunningOK ==
  \A k \in DOMAIN O.accts :
    LET l == O.accts[k].posts
        at(i) == O.txns[l[i][1]].posts[l[i][2]]
    IN /\ \A i \in DOMAIN l : at(i).acct = k
       /\ \A i \in DOMAIN l : IsBalance(at(i).bal)
       /\ \A i \in DOMAIN l : SameBalance(at(i).bal, BalAdd(IF i = 1 THEN <<>> ELSE at(i - 1).bal, at(i).val))
       /\ \A i \in 1..Len(l) - 1 : \/ TimeLt(at(i).time, at(i + 1).time)
                                   \/ at(i).time = at(i + 1).time /\ (l[i][1] < l[i + 1][1]
                                            \/ (l[i][1] = l[i + 1][1] /\ (k = Len(O.accts) \/ l[i][2] < l[i + 1][2])))
       /\ Len(l) = Len(SelectSeq(AllPosts(O.txns, 1), LAMBDA tp : O.txns[tp[1]].posts[tp[2]].acct = k))

(* Every transaction in the ledger balances, from what the code made only  *)
BalancedOK ==
  \A t \in DOMAIN O.txns :
    Len(BalSum(<<>>, [i \in DOMAIN OPosts(t) |-> Weight(OPosts(t)[i])])) \in {0, 2}

\* Lines that had to be reported, and only warnings about other lines
ReportsOK == {O.logs[k] : k \in DOMAIN O.logs} = {J.bad[i] : i \in DOMAIN J.bad} \cup {J.notes[i] : i \in DOMAIN J.notes}
LogsOK == \A i \in DOMAIN J.bad : J.bad[i] \in {O.logs[k] : k \in DOMAIN O.logs}

\* The same journal as one file gives the same ledger (C.flat, C.mine: what identifies both)
FlatOK == C.flat = C.mine

\* Opening ends, in one way or the other, and so does everything that is done to the ledger afterwards
AliveOK == O.res \in {"ok", "error"} /\ \A i \in DOMAIN C.after : C.after[i] \in {"ok", "error"}

\* Commands that were given this to read (C.commands; wrong: they were told something else that nobody can do): they
\* work if it makes a ledger, and else they fail, say so and report nothing
CommandsOK ==
  \A i \in DOMAIN C.commands :
    LET c == C.commands[i] IN
    IF Ready /\ ~c.wrong THEN c.status = "ok" ELSE c.status = "fail" /\ ~c.printed /\ c.said

Holds(g) ==
  CASE g = "outcome"   -> OutcomeOK
    [] g = "reports"   -> J.fatal = "" => ReportsOK
    [] g = "logs"      -> J.fatal = "" => LogsOK
    [] g = "flat"      -> FlatOK
    [] g = "alive"     -> AliveOK
    [] g = "commands"  -> CommandsOK
    [] OTHER -> Ready /\ O.res = "ok" => WellFormed /\
         CASE g = "tree"      -> TreeOK
           [] g = "values"    -> ValuesOK
           [] g = "annot"     -> AnnotOK
           [] g = "lists"     -> ListsOK
           [] g = "balances"  -> BalancesOK
           [] g = "running"   -> RunningOK
           [] g = "balanced"  -> BalancedOK
           [] g = "times"     -> TimesOK
           [] g = "order"     -> OrderOK
           [] g = "written"   -> WrittenPricesOK
           [] g = "auto"      -> AutoOK
           [] g = "marks"     -> MarksOK
           [] g = "currnames" -> CurrNamesOK
           [] g = "comments"  -> CommentsOK
           [] g = "desc"      -> DescOK
           [] g = "sources"   -> SourcesOK
           [] g = "transfers" -> TransfersOK

Why == IF Ready THEN "ok" ELSE IF J.fatal # "" THEN J.fatal ELSE F.err
Failing == SelectSeq(C.groups, LAMBDA g : ~Holds(g))

Judge == /\ verdict = "pending" /\ (phase = "refused" \/ (phase = "ready" /\ round = Len(Rounds)))
         /\ verdict' = IF Failing = <<>> THEN "accepted" ELSE "rejected"
         /\ PrintT(<<"@@", C.id, verdict', Failing, Why, Len(J.bad)>>)
         /\ UNCHANGED <<vars, cs, round>>

Next == Step \/ Edit \/ Judge
Spec == Init /\ [][Next]_allVars
=============================================================================
