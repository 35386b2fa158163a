----------------------------- MODULE SqlReader ----------------------------
(* A PostgreSQL database (db) is read row by row: its accounts, and then   *)
(* its postings.  db.broken: tables that cannot be read.                   *)
EXTENDS Ledger, SqlDB

VARIABLES db, rows,    \* rows still to be read, of the table being read
          accts,   \* accounts that have been read
          txns     \* transactions that have been read

FailsSql(reason) == phase' = "refused" /\ J' = [J EXCEPT !.fatal = reason] /\ UNCHANGED <<files, stack, F, db, rows, accts, txns>>

Connect == /\ phase = "open"
           /\ IF db.missing THEN FailsSql("cannot connect")
              ELSE IF "account" \in DOMAIN db.broken THEN FailsSql("cannot read accounts")
              ELSE phase' = "accounts" /\ rows' = AccountRows(db) /\ UNCHANGED <<files, stack, J, F, db, accts, txns>>
ReadAccountRow == /\ phase = "accounts" /\ rows # <<>>
                  /\ IF CanReadAccount(rows[1])
                     THEN rows' = Tail(rows) /\ accts' = WithAccount(accts, rows[1]) /\ UNCHANGED <<phase, files, stack, J, F, db, txns>>
                     ELSE FailsSql("wrong account")
EndOfAccounts == /\ phase = "accounts" /\ rows = <<>>
                 /\ IF Circular(Adopted(accts)) THEN FailsSql("circular")
                    ELSE IF "split" \in DOMAIN db.broken \/ "transaction" \in DOMAIN db.broken THEN FailsSql("cannot read transactions")
                    ELSE phase' = "postings" /\ accts' = Adopted(accts) /\ rows' = PostingRows(db) /\ UNCHANGED <<files, stack, J, F, db, txns>>
ReadPostingRow == /\ phase = "postings" /\ rows # <<>>
                  /\ IF CanReadPosting(rows[1])
                     THEN rows' = Tail(rows) /\ txns' = WithRow(txns, accts, rows[1]) /\ UNCHANGED <<phase, files, stack, J, F, db, accts>>
                     ELSE FailsSql("wrong amount")
EndOfPostings == /\ phase = "postings" /\ rows = <<>> /\ phase' = "filling"
                 /\ J' = [J EXCEPT !.accts = FinalAccts(accts), !.txns = txns]
                 /\ F' = StartBook(txns, FinalAccts(accts))
                 /\ UNCHANGED <<files, stack, db, rows, accts, txns>>

ReadSql == Connect \/ ReadAccountRow \/ EndOfAccounts \/ ReadPostingRow \/ EndOfPostings
=============================================================================
