---------------------------- MODULE TextReader ----------------------------
(* A text database is read line by line, first its file of accounts and    *)
(* then the one of transactions: files are those two.                      *)
EXTENDS Ledger, TextDB

VARIABLE T

Fails(reason) == phase' = "refused" /\ J' = [J EXCEPT !.fatal = reason] /\ UNCHANGED <<files, stack, F, T>>

\* stack: which file, and the lines of it that have been read
OpenAccounts ==
  /\ phase = "open"
  /\ IF files[1].kind = "missing" THEN Fails("cannot open")
     ELSE phase' = "reading" /\ stack' = << <<1, 0>> >> /\ UNCHANGED <<files, J, F, T>>
ReadAccountLine == /\ Reading /\ Top[1] = 1 /\ T' = TextAccount(T, CurLine) /\ stack' = Advanced /\ UNCHANGED <<phase, files, J, F>>
OpenTransactions ==
  /\ phase = "reading" /\ stack # <<>> /\ Top[1] = 1 /\ AtEnd
  /\ stack' = IF files[2].kind = "missing" THEN <<>> ELSE << <<2, 0>> >>      \* a database may have no transactions
  /\ UNCHANGED <<phase, files, J, F, T>>
ReadPostingLine == /\ Reading /\ Top[1] = 2 /\ T' \in TextPosting(T, CurLine) /\ stack' = Advanced /\ UNCHANGED <<phase, files, J, F>>
CannotRead == phase = "reading" /\ stack # <<>> /\ Unreadable /\ Fails("cannot read")
EndOfTransactions ==
  /\ phase = "reading" /\ (IF stack = <<>> THEN TRUE ELSE Top[1] = 2 /\ AtEnd)
  /\ LET A == TextAccts(T, StableSort([i \in DOMAIN T.accts |-> i], LAMBDA i, j : Less(FullName(T.accts, i), FullName(T.accts, j))))
         txns == [t \in DOMAIN T.txns |-> [T.txns[t] EXCEPT !.posts = [p \in DOMAIN @ |-> [@[p] EXCEPT !.acct = A.pos[@]]]]]
         accts == [k \in DOMAIN A.accts |-> [A.accts[k] EXCEPT !.src = <<0, 0>>]]
     IN /\ J' = [J EXCEPT !.accts = accts, !.txns = txns]
        /\ F' = StartBook(txns, accts)
  /\ phase' = "filling" /\ stack' = <<>> /\ UNCHANGED <<files, T>>

ReadText == OpenAccounts \/ ReadAccountLine \/ OpenTransactions \/ ReadPostingLine \/ CannotRead \/ EndOfTransactions
=============================================================================
