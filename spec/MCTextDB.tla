------------------------------ MODULE MCTextDB -----------------------------
(* Text databases made of lines chosen from a few (a JSON file: accounts,  *)
(* postings), one after another: all of them up to a length, or random     *)
(* ones.  Each is printed, to be opened by the code.                       *)
EXTENDS TextReader, Json, IOUtils

Data == JsonDeserialize(IOEnv.LINES)
Sample == atoi(IOEnv.SAMPLE)
LongestA == atoi(IOEnv.LONGESTA)
LongestP == atoi(IOEnv.LONGESTP)

VARIABLES as, ps     \* the lines of the two files, as positions in those of Data
mcText == <<vars, T, as, ps>>

File(ls, from) == [path |-> <<>>, kind |-> "ok", toolong |-> 0, lines |-> [i \in DOMAIN ls |-> from[ls[i]]]]
RandomLines(n, m) == TLCEval([i \in 1..n |-> RandomElement(1..m)])
All(k, m) == UNION {[1..n -> 1..m] : n \in 0..k}
Databases(na, np) == IF Sample = 0 THEN All(LongestA, na) \X All(LongestP, np)
                     ELSE {<<RandomLines(RandomElement(1..LongestA), na), RandomLines(RandomElement(0..LongestP), np)>> : i \in 1..Sample}

MCTextInit ==
  /\ \E d \in Databases(Len(Data.accounts), Len(Data.postings)) : LET a == d[1] p == d[2] IN
       /\ as = a /\ ps = p
       /\ LedgerInit(<<File(a, Data.accounts), File(p, Data.postings)>>)
       /\ PrintT(<<"@@", ToJson(<<a, p>>)>>)
  /\ T = EmptyTextDB
MCTextNext == /\ IF phase = "filling" THEN Fill /\ UNCHANGED T ELSE ReadText
              /\ UNCHANGED <<as, ps>>
MCTextSpec == MCTextInit /\ [][MCTextNext]_mcText
-----------------------------------------------------------------------------
Kept == phase = "filling" /\ F.next = 1 /\ F.err = ""      \* all has been read

\* Reading some lines at once, with the first choice wherever there are several
RECURSIVE AllAccounts(_, _)
AllAccounts(S, ls) == IF ls = <<>> THEN S ELSE AllAccounts(TextAccount(S, ls[1]), Tail(ls))
RECURSIVE Readings(_, _)
Readings(SS, ls) == IF ls = <<>> THEN SS ELSE Readings(UNION {TextPosting(S, ls[1]) : S \in SS}, Tail(ls))

\* A line that does not say what a posting needs, whatever was read before
Malformed(l) == LET f == SplitBy(l, 58) IN Len(f) # 7 \/ TextTime(f[2]) = NoDate \/ Whole(f[5]) = <<>>
MalformedAccount(l) == LET f == SplitBy(l, 58) IN Len(f) # 6 \/ Whole(f[1]) = <<>>

\* Malformed lines disturb nothing
Undisturbed == Kept =>
  LET A == AllAccounts(EmptyTextDB, SelectSeq(files[1].lines, LAMBDA l : ~MalformedAccount(l)))
      R == Readings({A}, SelectSeq(files[2].lines, LAMBDA l : ~Malformed(l)))
  IN T \in R

\* Every transaction ends where its amounts reach zero, or at a check, and not before
RECURSIVE SumTo(_, _)
SumTo(posts, n) == IF n = 0 THEN Zero ELSE Add(SumTo(posts, n - 1), posts[n].val[2])
Ended == Kept => \A t \in DOMAIN T.txns : LET p == T.txns[t].posts n == Len(p) IN
  /\ n > 0
  /\ p[n].asrt # <<>> \/ IsZero(SumTo(p, n))
  /\ \A i \in 1..n - 1 : p[i].asrt = <<>> /\ ~IsZero(SumTo(p, i))

\* No posting is lost or repeated, and all are in order: those of well-formed lines, except for what is not finished
Amounts(l) == LET f == SplitBy(l, 58) IN IF f[6] # <<>> THEN Hundredths(Tail(f[6])) ELSE Hundredths(IF f[7] # <<>> /\ f[7][1] \in {43, 45} THEN Tail(f[7]) ELSE f[7])
RECURSIVE PostsFrom(_, _)
PostsFrom(txns, i) == IF i > Len(txns) THEN <<>> ELSE txns[i].posts \o PostsFrom(txns, i + 1)
Known(l) == ~Malformed(l) /\ LET f == SplitBy(l, 58) IN WithId(T.accts, Whole(f[5])[1], Len(T.accts)) # 0
             /\ (f[6] # <<>> \/ f[7] # <<>>) /\ (f[6] # <<>> => f[6][1] \in {43, 45}) /\ Amounts(l) # {}
Blank(l) == LET f == SplitBy(l, 58) IN ~Malformed(l) /\ f[6] = <<>> /\ f[7] = <<>>
NothingLost == Kept =>
  LET all == PostsFrom(T.txns, 1) \o T.posts
      ls  == SelectSeq(files[2].lines, Known)
  IN (\A i \in DOMAIN files[2].lines : ~Blank(files[2].lines[i])) =>
     /\ Len(all) = Len(ls)
     /\ \A i \in DOMAIN all : LET f == SplitBy(ls[i], 58) IN
          /\ all[i].acct = WithId(T.accts, Whole(f[5])[1], Len(T.accts))
          /\ (all[i].asrt = <<>>) = (f[6] # <<>>)

\* Accounts: one for each line, parents before their children
Tree == Kept =>
  /\ Len(T.accts) = Len(SelectSeq(files[1].lines, LAMBDA l : ~MalformedAccount(l)))
  /\ \A i \in DOMAIN T.accts : T.accts[i].parent < i

\* The ledger has what was read
Whole2 == phase = "ready" =>
  /\ Len(F.x) = Len(T.txns) /\ Len(J.accts) = Len(T.accts)
  /\ \A t \in DOMAIN F.x : LET s == BalSum(<<>>, [i \in DOMAIN F.x[t].posts |-> F.x[t].posts[i].val]) IN s = <<>>
=============================================================================
