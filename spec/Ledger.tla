------------------------------- MODULE Ledger -----------------------------
(* The system: a journal is read line by line, through the files it        *)
(* includes, and the ledger is computed from it step by step.              *)
(*                                                                         *)
(* files: the files there are, a sequence of [path, kind, lines, toolong]: *)
(*   path is the sequence of components of its name; kind is "ok", "dir"   *)
(*   or "missing"; toolong is the number of its first line that is too     *)
(*   long to be read, or 0.  The first file is the journal.                *)
EXTENDS Journal, Book

VARIABLES
  phase,   \* "open", "reading", "filling", "ready" or "refused"
  files,
  J,       \* what has been read
  stack,   \* files being read, <<file, lines read>>; the last one includes none yet
  F        \* what has been computed

vars == <<phase, files, J, stack, F>>

NoBook == [err |-> "none"]

LedgerInit(fs) ==
  /\ phase = "open" /\ files = fs /\ J = EmptyJournal /\ stack = <<>> /\ F = NoBook

Refuse(reason) == /\ phase' = "refused" /\ J' = [J EXCEPT !.fatal = reason] /\ UNCHANGED <<files, stack, F>>

OpenJournal ==
  /\ phase = "open"
  /\ IF files[1].kind = "missing" THEN Refuse("cannot open")
     ELSE /\ phase' = "reading" /\ stack' = << <<1, 0>> >> /\ UNCHANGED <<files, J, F>>

Top == stack[Len(stack)]
TopFile == files[Top[1]]
Src == <<Top[1], Top[2] + 1>>              \* of the line to be read
CurLine == TopFile.lines[Top[2] + 1]
AtEnd == TopFile.kind = "ok" /\ Top[2] >= Len(TopFile.lines)
Unreadable == TopFile.kind = "dir" \/ (~AtEnd /\ TopFile.toolong = Top[2] + 1)
Advanced == [stack EXCEPT ![Len(stack)] = <<Top[1], Top[2] + 1>>]

\* file with those components, or 0
RECURSIVE FileNamed(_, _)
FileNamed(path, i) == IF i > Len(files) THEN 0 ELSE IF files[i].path = path THEN i ELSE FileNamed(path, i + 1)
Included(name) == IF name = <<>> THEN 0 ELSE FileNamed(IncludedPath(TopFile.path, name), 1)
CanInclude(f) == f # 0 /\ files[f].kind # "missing" /\ \A i \in DOMAIN stack : stack[i][1] # f

Reading == phase = "reading" /\ stack # <<>> /\ ~AtEnd /\ ~Unreadable

\* One line of some kind: J1 is what results
Line(J1) ==
  /\ J' = J1 /\ stack' = Advanced
  /\ phase' = IF J1.fatal = "" THEN "reading" ELSE "refused"
  /\ UNCHANGED <<files, F>>

ReadBlank     == LET L == Parts(CurLine) IN L.kind = "blank" /\ Line(J)
ReadComment   == LET L == Parts(CurLine) IN L.kind = "comment" /\ Line(DoComment(J, L, Src))
ReadPrice     == LET L == Parts(CurLine) IN L.kind = "price" /\ Line(DoPrice(J, L, Src))
ReadDefault   == LET L == Parts(CurLine) IN L.kind = "default" /\ Line(DoDefault(J, L, Src))
ReadCommodity == LET L == Parts(CurLine) IN L.kind = "commodity" /\ Line(DoCommodity(J, L, Src))
ReadAccount   == LET L == Parts(CurLine) IN L.kind = "account" /\ Line(DoAccount(J, L, Src))
ReadTxn       == LET L == Parts(CurLine) IN L.kind = "txn" /\ Line(DoTxn(J, L, Src))
ReadPosting   == LET L == Parts(CurLine) IN L.kind = "indented" /\ PostingOpen(J) /\ Line(DoPosting(J, L, Src))
ReadJunk      == LET L == Parts(CurLine) IN
                 (L.kind = "junk" \/ (L.kind = "indented" /\ ~PostingOpen(J))) /\ Line(DoJunk(J, L, Src))
ReadInclude ==
  LET L == Parts(CurLine) IN
  /\ L.kind = "include"
  /\ LET f == Included(L.rest) IN
     /\ J' = DoInclude(J, CanInclude(f), Src)
     /\ stack' = IF CanInclude(f) THEN Append(Advanced, <<f, 0>>) ELSE Advanced
     /\ UNCHANGED <<phase, files, F>>

ReadLine == Reading /\ ( \/ ReadBlank \/ ReadComment \/ ReadPrice \/ ReadDefault \/ ReadCommodity
                         \/ ReadAccount \/ ReadTxn \/ ReadPosting \/ ReadJunk \/ ReadInclude )

FailToRead == phase = "reading" /\ stack # <<>> /\ Unreadable /\ Refuse("cannot read")

EndOfFile ==
  /\ phase = "reading" /\ stack # <<>> /\ AtEnd
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ IF Len(stack) > 1 THEN UNCHANGED <<phase, files, J, F>>
     ELSE /\ phase' = "filling" /\ F' = StartBook(J.txns, J.accts) /\ UNCHANGED <<files, J>>

FillStep(F1) ==
  /\ F' = F1
  /\ phase' = (IF F1.err # "" THEN "refused" ELSE "filling")
  /\ UNCHANGED <<files, J, stack>>
ResolveTxn == phase = "filling" /\ CanResolve(F) /\ FillStep(Resolve(F))
PassAccount(a) == phase = "filling" /\ CanPass(F, a) /\ FillStep(Pass(F, a))
FillStuck == phase = "filling" /\ Stuck(F) /\ FillStep([F EXCEPT !.err = "cannot be resolved"])
FillDone == /\ phase = "filling" /\ Finished(F)
            /\ IF TransfersFit(F) THEN phase' = "ready" /\ UNCHANGED <<files, J, stack, F>>
               ELSE FillStep([F EXCEPT !.err = "balance too large"])

\* In any order, the result is the same (see MCBook)
Fill == ResolveTxn \/ (\E a \in DOMAIN F.list : PassAccount(a)) \/ FillStuck \/ FillDone

LedgerNext == OpenJournal \/ ReadLine \/ FailToRead \/ EndOfFile \/ (phase = "filling" /\ Fill)

-----------------------------------------------------------------------------
(* The ledger that results, when phase = "ready"                           *)

\* The amount zero of the unnamed currency looks like no amount if it is not the default currency
\* (and so does that of the currency -3, which stands for the one of amounts that were omitted and are zero)
Norm(v) == IF v[1] = -3 THEN NoValue ELSE IF v[1] = -1 /\ J.dflt # -1 /\ IsZero(v[2]) THEN NoValue ELSE v

OutAccts == F.accts                                   \* position -> account read
PosOf(a) == CHOOSE k \in DOMAIN F.accts : F.accts[k] = a
RECURSIVE Level(_)
Level(a) == IF J.accts[a].parent = 0 THEN 0 ELSE 1 + Level(J.accts[a].parent)
=============================================================================
