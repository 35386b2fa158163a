------------------------------ MODULE Journal -----------------------------
(* How a journal is read, line by line.                                    *)
(*                                                                         *)
(* The state of the reader is a record J:                                  *)
(*   accts   accounts, in order of creation: [full, name, parent, code,    *)
(*           comments, src]; parent is a position in accts (0: none)       *)
(*   txns    transactions: [time, desc, comments, src, posts]; posts:      *)
(*           [acct, time, val, price, asrt, comments, src]                 *)
(*   prices  written prices: [time, cur, val, comments, src]               *)
(*   currs   named currencies: [name, before, nospace, thou, dec, prec,    *)
(*           isin, comments]                                               *)
(*   unnamed the currency of amounts written without one, as in currs, and *)
(*           whether it exists                                             *)
(*   dflt    the default currency                                          *)
(*   last    the kind of the last entry, and lastCur its currency          *)
(*   fatal   why reading has to fail ("": it has not failed)               *)
(*   bad     lines reported as wrong, <<file, line>>                       *)
(*   notes   other lines that are reported, <<file, line>>                 *)
(* A currency is referred to by its position in currs; -1 is the unnamed   *)
(* one and 0 none.  A value is <<currency, amount>>.  src is <<file,line>>.*)
(* posts.time is NoDate, or the date of the posting if it has its own;     *)
(* price and asrt are <<>> or a value.                                     *)
EXTENDS Integers, Sequences, Text, BigNum, Calendar, Money

NoValue == <<0, Zero>>

NewCurr(name, before, nospace) ==
  [name |-> name, before |-> before, nospace |-> nospace, thou |-> 0, dec |-> 0, prec |-> 0,
   isin |-> <<>>, comments |-> <<>>]

EmptyJournal ==
  [accts |-> <<>>, txns |-> <<>>, prices |-> <<>>, currs |-> <<>>,
   unnamed |-> [exists |-> FALSE, c |-> NewCurr(<<>>, FALSE, FALSE)],
   dflt |-> 0, last |-> "none", lastCur |-> 0, fatal |-> "", bad |-> <<>>, notes |-> <<>>]

CurrOf(J, ref) == IF ref = -1 THEN J.unnamed.c ELSE J.currs[ref]
SetCurr(J, ref, c) ==
  IF ref = -1 THEN [J EXCEPT !.unnamed.c = c] ELSE [J EXCEPT !.currs[ref] = c]

\* position of the currency with that name, or 0
RECURSIVE FindCurr(_, _, _)
FindCurr(currs, name, i) ==
  IF i > Len(currs) THEN 0 ELSE IF currs[i].name = name THEN i ELSE FindCurr(currs, name, i + 1)

\* Reading a value: [ok, val, J].  v has been trimmed.
ReadValue(J, v) ==
  IF v = <<>> THEN [ok |-> TRUE, val |-> NoValue, J |-> J]
  ELSE LET p == SplitValue(v) IN
  IF ~p.ok THEN [ok |-> FALSE, val |-> NoValue, J |-> J]
  ELSE LET found == IF p.name = <<>> THEN J.dflt ELSE FindCurr(J.currs, p.name, 1)
           J1 == IF found # 0 THEN J
                 ELSE IF p.name = <<>>
                 THEN [J EXCEPT !.dflt = -1, !.unnamed.exists = TRUE]
                 ELSE [J EXCEPT !.currs = Append(@, NewCurr(p.name, p.before, p.nospace))]
           ref == IF found # 0 THEN found ELSE IF p.name = <<>> THEN -1 ELSE Len(J1.currs)
           c   == CurrOf(J1, ref)
           r   == ReadAmount(p.amount, [thou |-> c.thou, dec |-> c.dec, prec |-> c.prec])
       IN IF ~r.ok THEN [ok |-> FALSE, val |-> NoValue, J |-> J1]
          ELSE [ok |-> TRUE, val |-> <<ref, r.amt>>,
                J |-> SetCurr(J1, ref, [c EXCEPT !.thou = r.marks.thou, !.dec = r.marks.dec, !.prec = r.marks.prec])]

\* position of the account with that full name, or 0
RECURSIVE FindAcct(_, _, _)
FindAcct(accts, full, i) ==
  IF i > Len(accts) THEN 0 ELSE IF accts[i].full = full THEN i ELSE FindAcct(accts, full, i + 1)

\* The accounts after making sure that one exists, with its ancestors
RECURSIVE WithAcct(_, _, _)
WithAcct(accts, full, src) ==
  IF FindAcct(accts, full, 1) # 0 THEN accts
  ELSE LET i  == FindLast(full, 58)
           a1 == IF i = 0 THEN accts ELSE WithAcct(accts, Upto(full, i - 1), src)
       IN Append(a1, [full |-> full, name |-> From(full, i + 1),
                      parent |-> IF i = 0 THEN 0 ELSE FindAcct(a1, Upto(full, i - 1), 1),
                      code |-> <<>>, comments |-> <<>>, src |-> src])

\* Tags: lower case letters followed by ':' and anything.  [at: position of the ':', or 0; name]
RECURSIVE TagColon(_, _)
LOCAL TagColon(s, i) ==
  LET k == Find(s, 58, i) IN
  IF k = 0 THEN 0 ELSE IF k > 1 /\ IsLower(s[k - 1]) THEN k ELSE TagColon(s, k + 1)
RECURSIVE RunStart(_, _)
LOCAL RunStart(s, i) == IF i > 1 /\ IsLower(s[i - 1]) THEN RunStart(s, i - 1) ELSE i
GetTag(s) ==
  LET k == TagColon(s, 1) IN
  IF k = 0 THEN [name |-> <<>>, value |-> <<>>]
  ELSE [name |-> SubSeq(s, RunStart(s, k), k - 1), value |-> From(s, k + 1)]

TagCode == <<99, 111, 100, 101>>
TagDate == <<100, 97, 116, 101>>
TagIsin == <<105, 115, 105, 110>>

\* A comment on a posting p that is not (or already) in the journal
CommentPosting(p, c) ==
  LET t == GetTag(c) IN
  IF t.name = TagDate
  THEN (IF GetDate(t.value) = NoDate THEN p ELSE [p EXCEPT !.time = GetDate(t.value)])
  ELSE [p EXCEPT !.comments = Append(@, c)]
CommentAcct(a, c) ==
  LET t == GetTag(c) IN
  IF t.name = TagCode THEN [a EXCEPT !.code = t.value] ELSE [a EXCEPT !.comments = Append(@, c)]
CommentCurr(cu, c) ==
  LET t == GetTag(c) IN
  IF t.name = TagIsin THEN [cu EXCEPT !.isin = t.value] ELSE [cu EXCEPT !.comments = Append(@, c)]
CommentOther(e, c) == [e EXCEPT !.comments = Append(@, c)]

-----------------------------------------------------------------------------
(* Kinds of lines *)

KwInclude   == <<105, 110, 99, 108, 117, 100, 101>>
KwPrice     == <<80>>
KwDefault   == <<68>>
KwCommodity == <<99, 111, 109, 109, 111, 100, 105, 116, 121>>
KwAccount   == <<97, 99, 99, 111, 117, 110, 116>>

\* What a physical line says: [kind, ind, text, comment, word, rest]
Parts(raw) ==
  LET ind  == raw # <<>> /\ raw[1] \in {32, 9}
      t0   == Trim(raw)
      semi == Find(t0, 59, 1)
      text == IF semi = 0 THEN t0 ELSE Trim(Upto(t0, semi - 1))
      cmt  == IF semi = 0 THEN <<>> ELSE Trim(From(t0, semi + 1))
      fw   == FirstWord(text)
  IN IF t0 = <<>> THEN [kind |-> "blank", ind |-> ind]
     ELSE IF t0[1] \in {42, 35, 59} THEN [kind |-> "comment", ind |-> ind, comment |-> Trim(Tail(t0))]
     ELSE [kind |-> CASE ind -> "indented"
                      [] ~ind /\ fw.word = KwInclude -> "include"
                      [] ~ind /\ fw.word = KwPrice -> "price"
                      [] ~ind /\ fw.word = KwDefault -> "default"
                      [] ~ind /\ fw.word = KwCommodity -> "commodity"
                      [] ~ind /\ fw.word = KwAccount -> "account"
                      [] ~ind /\ GetDate(fw.word) # NoDate -> "txn"
                      [] OTHER -> "junk",
           ind |-> ind, text |-> text, comment |-> cmt, word |-> fw.word, rest |-> fw.rest]

PostingOpen(J) == J.last \in {"txn", "post", "wrong"}
Report(J, src) == [J EXCEPT !.bad = Append(@, src)]
Note(J, src) == [J EXCEPT !.notes = Append(@, src)]
\* J2, and a note if something has been mentioned since J1 that had not been declared
NoteNew(J1, J2, src) ==
  IF J1.accts # J2.accts \/ Len(J1.currs) < Len(J2.currs) \/ (J2.unnamed.exists /\ ~J1.unnamed.exists) THEN Note(J2, src) ELSE J2
NoteComment(J, c, src) == LET t == GetTag(c) IN IF t.name = TagDate /\ GetDate(t.value) = NoDate THEN Note(J, src) ELSE J

DoComment(J, L, src) ==
  IF ~L.ind THEN J
  ELSE CASE J.last = "acct"  -> [J EXCEPT !.accts[Len(J.accts)] = CommentAcct(@, L.comment)]
         [] J.last = "comm"  -> SetCurr(J, J.lastCur, CommentCurr(CurrOf(J, J.lastCur), L.comment))
         [] J.last = "price" -> [J EXCEPT !.prices[Len(J.prices)] = CommentOther(@, L.comment)]
         [] J.last = "txn"   -> [J EXCEPT !.txns[Len(J.txns)] = CommentOther(@, L.comment)]
         [] J.last = "post"  -> LET t == J.txns[Len(J.txns)]
                                    k == Len(t.posts)
                                IN NoteComment([J EXCEPT !.txns[Len(J.txns)].posts[k] = CommentPosting(@, L.comment)],
                                               L.comment, t.posts[k].src)
         [] OTHER -> Note(J, src)

DoPrice(J0, L, src) ==
  LET J  == [J0 EXCEPT !.last = "none"]
      d  == FirstWord(L.rest)
      t  == GetDate(d.word)
      cw == FirstWord(d.rest)
  IN IF t = NoDate THEN Report(J, src)
     ELSE IF J.prices # <<>> /\ TimeLt(t, J.prices[Len(J.prices)].time) THEN [J EXCEPT !.fatal = "prices not sorted"]
     ELSE IF cw.rest = <<>> \/ Has(cw.word, {61, 64}) THEN Report(J, src)
     ELSE LET known == FindCurr(J.currs, cw.word, 1)
              J1 == IF known # 0 THEN J ELSE [J EXCEPT !.currs = Append(@, NewCurr(cw.word, FALSE, FALSE))]
              ref == IF known # 0 THEN known ELSE Len(J1.currs)
              v  == ReadValue(J1, cw.rest)
              p  == [time |-> t, cur |-> ref, val |-> v.val, comments |-> <<>>, src |-> src]
          IN IF ~v.ok THEN Report(v.J, src)
             ELSE [NoteNew(J, v.J, src) EXCEPT !.prices = Append(@, IF L.comment = <<>> THEN p ELSE CommentOther(p, L.comment)),
                              !.last = "price"]

DoDefault(J0, L, src) ==
  LET v == ReadValue([J0 EXCEPT !.last = "dflt"], L.rest) IN
  IF ~v.ok THEN Report(v.J, src) ELSE [v.J EXCEPT !.dflt = v.val[1]]

DoCommodity(J0, L, src) ==
  LET v == ReadValue([J0 EXCEPT !.last = "none"], L.rest) IN
  IF ~v.ok \/ v.val[1] = 0 THEN Report(v.J, src)
  ELSE LET J1 == [v.J EXCEPT !.last = "comm", !.lastCur = v.val[1]] IN
       IF L.comment = <<>> THEN J1 ELSE SetCurr(J1, J1.lastCur, CommentCurr(CurrOf(J1, J1.lastCur), L.comment))

DoAccount(J0, L, src) ==
  IF FindAcct(J0.accts, L.rest, 1) # 0 THEN [J0 EXCEPT !.fatal = "account already defined"]
  ELSE LET J1 == [J0 EXCEPT !.accts = WithAcct(@, L.rest, src), !.last = "acct"] IN
       IF L.comment = <<>> THEN J1 ELSE [J1 EXCEPT !.accts[Len(J1.accts)] = CommentAcct(@, L.comment)]

DoTxn(J, L, src) ==
  LET t == GetDate(L.word)
      x == [time |-> t, desc |-> L.rest, comments |-> <<>>, src |-> src, posts |-> <<>>]
  IN IF J.txns # <<>> /\ TimeLt(t, J.txns[Len(J.txns)].time) THEN [J EXCEPT !.fatal = "transactions not sorted"]
     ELSE [J EXCEPT !.txns = Append(@, IF L.comment = <<>> THEN x ELSE CommentOther(x, L.comment)),
                    !.last = "txn"]

\* Parts of a posting: [acct, val, rel, price, asrt]; price and asrt are [has, text]; rel: price per unit
PostingParts(text) ==
  LET i    == FindTwice(text, 32, 1)
      acct == IF i > 1 THEN Upto(text, i - 1) ELSE text
      v    == IF i > 1 THEN From(text, i + 2) ELSE <<>>
      at2  == FindTwice(v, 64, 1)
      at1  == Find(v, 64, 1)
      eq   == Find(v, 61, 1)
      abs  == at2 > 1
      rel  == ~abs /\ at1 > 1
      pAt  == IF abs THEN at2 ELSE at1
      pTxt == IF abs THEN at2 + 2 ELSE at1 + 1      \* where the price starts
  IN [acct |-> acct,
      val  |-> Trim(IF abs \/ rel THEN Upto(v, pAt - 1) ELSE IF eq # 0 THEN Upto(v, eq - 1) ELSE v),
      rel  |-> rel,
      price |-> [has |-> abs \/ rel,
                 text |-> IF abs \/ rel THEN Trim(IF eq # 0 THEN SubSeq(v, pTxt, eq - 1) ELSE From(v, pTxt)) ELSE <<>>],
      asrt |-> [has |-> eq # 0, text |-> IF eq # 0 THEN Trim(From(v, eq + 1)) ELSE <<>>]]

DoPosting(J0, L, src) ==
  LET p  == PostingParts(L.text)
      J1 == [J0 EXCEPT !.accts = WithAcct(@, p.acct, src), !.last = "wrong"]
      v  == ReadValue(J1, p.val)
      pr == IF v.ok /\ p.price.has THEN ReadValue(v.J, p.price.text) ELSE [ok |-> TRUE, val |-> NoValue, J |-> v.J]
      unit == Quo(Mul(v.val[2], pr.val[2]), U)
      total == IF p.rel THEN <<pr.val[1], unit>> ELSE pr.val
      prOk == v.ok /\ pr.ok /\ (p.price.has => pr.val[1] # 0 /\ v.val[1] # 0 /\ (p.rel => InInt64(unit)))
      a  == IF prOk /\ p.asrt.has THEN ReadValue(pr.J, p.asrt.text) ELSE [ok |-> TRUE, val |-> NoValue, J |-> pr.J]
      ok == prOk /\ a.ok /\ (p.asrt.has => a.val[1] # 0)
      post == [acct |-> FindAcct(a.J.accts, p.acct, 1), time |-> NoDate, val |-> v.val,
               price |-> IF p.price.has THEN total ELSE <<>>,
               asrt |-> IF p.asrt.has THEN a.val ELSE <<>>,
               comments |-> <<>>, src |-> src]
  IN IF ~ok THEN Report(a.J, src)
     ELSE [NoteNew(J0, NoteComment(a.J, L.comment, src), src) EXCEPT
             !.txns[Len(J0.txns)].posts = Append(@, IF L.comment = <<>> THEN post ELSE CommentPosting(post, L.comment)),
             !.last = "post"]

DoJunk(J, L, src) == Report(IF L.ind THEN J ELSE [J EXCEPT !.last = "none"], src)
DoInclude(J, ok, src) == LET J1 == [J EXCEPT !.last = "incl"] IN IF ok THEN J1 ELSE Report(J1, src)

-----------------------------------------------------------------------------
(* File names *)

LOCAL Dot == <<46>>
LOCAL DotDot == <<46, 46>>
RECURSIVE Clean(_, _)
LOCAL Clean(f, done) ==
  IF f = <<>> THEN done
  ELSE IF f[1] = <<>> \/ f[1] = Dot THEN Clean(Tail(f), done)
  ELSE IF f[1] = DotDot /\ done # <<>> THEN Clean(Tail(f), SubSeq(done, 1, Len(done) - 1))
  ELSE Clean(Tail(f), Append(done, f[1]))

\* The components of the file that the file with components cur includes as name
IncludedPath(cur, name) ==
  IF name # <<>> /\ name[1] = 47 THEN Clean(SplitBy(name, 47), <<>>)
  ELSE Clean(SubSeq(cur, 1, Len(cur) - 1) \o SplitBy(name, 47), <<>>)
=============================================================================
