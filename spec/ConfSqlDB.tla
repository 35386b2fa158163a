---------------------------- MODULE ConfSqlDB -----------------------------
(* Conformance: a PostgreSQL database (C.db), and the ledger that the code *)
(* made of it.                                                             *)
EXTENDS ConfJournal, SqlReader

sqlVars == <<allVars, db, rows, accts, txns>>

InitSql == /\ cs \in DOMAIN Cases /\ verdict = "pending" /\ round = 0 /\ db = Cases[cs].db /\ rows = <<>> /\ accts = <<>> /\ txns = <<>>
           /\ LedgerInit(<<>>)

StepSql == /\ verdict = "pending" /\ phase \notin {"ready", "refused"}
           /\ \/ ReadSql
              \/ (phase = "filling" /\ FillOne /\ UNCHANGED <<db, rows, accts, txns>>)
           /\ UNCHANGED <<cs, verdict, round>>

CodesOK == \A k \in 1..NA : O.accts[k].code = J.accts[F.accts[k]].code /\ O.accts[k].src = J.accts[F.accts[k]].src
CentsOK == \/ O.unnamed.prec = 2 /\ O.unnamed.name = <<>>
           \/ \A t \in DOMAIN O.txns : \A p \in DOMAIN O.txns[t].posts : O.txns[t].posts[p].val[1] # -1
HoldsSql(g) == CASE g = "codes" -> (Ready /\ O.res = "ok" => Len(O.accts) = NA + 1 /\ CodesOK)
                 [] g = "cents" -> (Ready /\ O.res = "ok" => CentsOK)
                 [] OTHER -> Holds(g)
FailingSql == SelectSeq(C.groups, LAMBDA g : ~HoldsSql(g))
JudgeSql ==
  /\ verdict = "pending" /\ phase \in {"ready", "refused"}
  /\ verdict' = IF FailingSql = <<>> THEN "accepted" ELSE "rejected"
  /\ PrintT(<<"@@", C.id, verdict', FailingSql, Why, 0>>)
  /\ UNCHANGED <<vars, cs, round, db, rows, accts, txns>>
NextSql == StepSql \/ JudgeSql
SpecSql == InitSql /\ [][NextSql]_sqlVars
=============================================================================
