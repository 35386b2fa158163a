------------------------------ MODULE MCLines ------------------------------
(* Journals made of lines chosen from some (IOEnv.LINES), all of them up to *)
(* some length or a sample of longer ones: what every single line does to   *)
(* what has been read.  Every journal is printed too, for the code to read. *)
EXTENDS Ledger, Json, IOUtils

CONSTANTS Longest,   \* length of the journals
          Sample     \* how many journals (0: all of them)

Input == JsonDeserialize(IOEnv.LINES)      \* [main, lines, other]: paths, lines to choose from, the file to include
LinesThere == Input.lines
EnvLongest == atoi(IOEnv.LONGEST)
EnvSample == atoi(IOEnv.SAMPLE)

VARIABLES todo,     \* lines to be written (numbers), if they are given beforehand
          written   \* lines of the journal
mcVars == <<vars, todo, written>>

MCInit ==
  /\ phase = "reading" /\ J = EmptyJournal /\ F = NoBook /\ stack = << <<1, 0>> >> /\ written = <<>>
  /\ files = << [path |-> Input.main, kind |-> "ok", lines |-> <<>>, toolong |-> 0], Input.other >>
  /\ IF Sample = 0 THEN todo = <<>>
     ELSE \E k \in 1..Sample : todo = TLCEval([i \in 1..Longest |-> RandomElement(DOMAIN LinesThere)])

\* One more line, which is read next
Write ==
  /\ phase = "reading" /\ Len(stack) = 1 /\ AtEnd /\ Len(written) < Longest
  /\ \E n \in (IF Sample = 0 THEN DOMAIN LinesThere ELSE {todo[Len(written) + 1]}) :
       files' = [files EXCEPT ![1].lines = Append(@, LinesThere[n])] /\ written' = Append(written, n)
  /\ UNCHANGED <<phase, J, stack, F, todo>>
Read == ReadLine /\ UNCHANGED <<todo, written>>
Back == Len(stack) > 1 /\ EndOfFile /\ UNCHANGED <<todo, written>>
Stop ==
  /\ phase = "reading" /\ Len(stack) = 1 /\ AtEnd /\ Len(written) = Longest
  /\ EndOfFile /\ UNCHANGED <<todo, written>>
FillOne ==
  /\ phase = "filling"
  /\ IF CanResolve(F) THEN ResolveTxn
     ELSE IF \E a \in DOMAIN F.list : CanPass(F, a)
     THEN PassAccount(CHOOSE a \in DOMAIN F.list : CanPass(F, a))
     ELSE FillStuck \/ FillDone
  /\ UNCHANGED <<todo, written>>
MCNext == Write \/ Read \/ Back \/ Stop \/ FillOne
MCSpec == MCInit /\ [][MCNext]_mcVars

\* (an invariant that writes every journal when its end is known)
Printed == phase \in {"ready", "refused"} => PrintT(<<"@@", ToJson(written)>>)

-----------------------------------------------------------------------------
\* Accounts: each one once, below its parent, which comes before
Tree ==
  \A i \in DOMAIN J.accts : LET a == J.accts[i] IN
    /\ a.parent < i /\ \A k \in 1..i - 1 : J.accts[k].full # a.full
    /\ a.full = (IF a.parent = 0 THEN a.name ELSE J.accts[a.parent].full \o <<58>> \o a.name)
    /\ Find(a.name, 58, 1) = 0

\* What is referred to exists
LOCAL GoodCur(c) == c \in DOMAIN J.currs \/ (c = -1 /\ J.unnamed.exists)
LOCAL GoodVal(v) == GoodCur(v[1]) /\ InInt64(v[2])
References ==
  /\ \A i \in DOMAIN J.currs : J.currs[i].name # <<>> /\ \A k \in 1..i - 1 : J.currs[k].name # J.currs[i].name
  /\ J.dflt = 0 \/ GoodCur(J.dflt)
  /\ \A i \in DOMAIN J.prices : GoodCur(J.prices[i].cur) /\ GoodVal(J.prices[i].val)
  /\ \A i \in DOMAIN J.txns : \A k \in DOMAIN J.txns[i].posts : LET q == J.txns[i].posts[k] IN
       /\ q.acct \in DOMAIN J.accts
       /\ q.val = NoValue \/ GoodVal(q.val)
       /\ q.price # <<>> => GoodVal(q.price) /\ q.val # NoValue
       /\ q.asrt # <<>> => GoodVal(q.asrt)
Chronological ==
  /\ \A i \in 1..Len(J.txns) - 1 : ~TimeLt(J.txns[i + 1].time, J.txns[i].time)
  /\ \A i \in 1..Len(J.prices) - 1 : ~TimeLt(J.prices[i + 1].time, J.prices[i].time)
\* Every line is reported at most as often as it is read
Reported == \A i \in 1..Len(J.bad) - 1 : J.bad[i][1] = J.bad[i + 1][1] /\ J.bad[i][1] = 1 => J.bad[i][2] < J.bad[i + 1][2]

\* Of what was read, a line changes at most the last entry, which gets comments, or fields set by tags
LOCAL Front(s) == SubSeq(s, 1, Len(s) - 1)
LOCAL Extends(s, t) == Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
LOCAL Longer(s, t) == t = s \/ Front(t) = s
LOCAL SameAcct(a, b) == b = [a EXCEPT !.code = b.code, !.comments = b.comments] /\ Longer(a.comments, b.comments)
LOCAL SamePost(p, q) == q = [p EXCEPT !.time = q.time, !.comments = q.comments] /\ Longer(p.comments, q.comments)
LOCAL SameTxn(t, u) ==
  /\ u = [t EXCEPT !.comments = u.comments, !.posts = u.posts] /\ Longer(t.comments, u.comments)
  /\ Len(u.posts) \in {Len(t.posts), Len(t.posts) + 1}
  /\ \A k \in DOMAIN t.posts : u.posts[k] = t.posts[k] \/ (k = Len(t.posts) /\ Len(u.posts) = k /\ SamePost(t.posts[k], u.posts[k]))
LOCAL SamePrice(p, q) == q = [p EXCEPT !.comments = q.comments] /\ Longer(p.comments, q.comments)
OnlyLast == [][
  /\ \A i \in DOMAIN J.accts : i \in DOMAIN J'.accts /\
       (J'.accts[i] = J.accts[i] \/ (i = Len(J.accts) /\ i = Len(J'.accts) /\ J.last = "acct" /\ SameAcct(J.accts[i], J'.accts[i])))
  /\ \A i \in DOMAIN J.txns : i \in DOMAIN J'.txns /\
       (J'.txns[i] = J.txns[i] \/ (i = Len(J.txns) /\ i = Len(J'.txns) /\ PostingOpen(J) /\ SameTxn(J.txns[i], J'.txns[i])))
  /\ \A i \in DOMAIN J.prices : i \in DOMAIN J'.prices /\
       (J'.prices[i] = J.prices[i] \/ (i = Len(J.prices) /\ i = Len(J'.prices) /\ J.last = "price" /\ SamePrice(J.prices[i], J'.prices[i])))
  /\ \A i \in DOMAIN J.currs : i \in DOMAIN J'.currs /\ J'.currs[i].name = J.currs[i].name /\ J'.currs[i].before = J.currs[i].before
       /\ Extends(J.currs[i].comments, J'.currs[i].comments)
       /\ (J.currs[i].dec # 0 => J'.currs[i].dec = J.currs[i].dec) /\ (J.currs[i].thou # 0 => J'.currs[i].thou = J.currs[i].thou)
  /\ Extends(J.bad, J'.bad)
  ]_mcVars

\* What a line says is read, or reported, or makes reading fail; what says nothing adds nothing
LOCAL Posts(K) == IF K.txns = <<>> THEN 0 ELSE Len(K.txns[Len(K.txns)].posts)
NothingLost == [][
  (Reading /\ J'.fatal = "" /\ stack' # stack /\ ~AtEnd) =>
    LET L == Parts(CurLine)
        rep == J'.bad = Append(J.bad, Src)
        quiet == J'.bad = J.bad
    IN CASE L.kind = "junk" -> rep /\ J'.txns = J.txns /\ J'.accts = J.accts
         [] L.kind = "txn" -> quiet /\ Len(J'.txns) = Len(J.txns) + 1
         [] L.kind = "price" -> (quiet /\ Len(J'.prices) = Len(J.prices) + 1) \/ (rep /\ J'.prices = J.prices)
         [] L.kind = "account" -> quiet /\ Len(J'.accts) > Len(J.accts)
         [] L.kind = "indented" -> \/ quiet /\ Len(J'.txns) = Len(J.txns) /\ Posts(J') = Posts(J) + 1
                                   \/ rep /\ J'.txns = J.txns
         [] L.kind \in {"blank", "comment"} ->
              quiet /\ Len(J'.accts) = Len(J.accts) /\ Len(J'.txns) = Len(J.txns) /\ Posts(J') = Posts(J) /\ Len(J'.prices) = Len(J.prices)
         [] OTHER -> (quiet \/ rep) /\ J'.txns = J.txns /\ J'.accts = J.accts /\ J'.prices = J.prices
  ]_mcVars
=============================================================================
