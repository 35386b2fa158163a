---------------------------- MODULE ConfTextDB ----------------------------
(* Conformance: a text database (C.files: its files of accounts and        *)
(* transactions), and the ledger that the code made of it.                 *)
EXTENDS ConfJournal, TextReader

textVars == <<allVars, T>>

InitText == /\ cs \in DOMAIN Cases /\ verdict = "pending" /\ round = 0 /\ T = EmptyTextDB
            /\ LedgerInit(Cases[cs].files)

StepText ==
  /\ verdict = "pending" /\ phase \notin {"ready", "refused"}
  /\ \/ ReadText \/ (ReadTooLong /\ UNCHANGED T) \/ (phase = "filling" /\ FillOne /\ UNCHANGED T)
  /\ UNCHANGED <<cs, verdict, round>>

\* amounts in hundredths of the only currency, which has no name
CentsOK == \/ O.unnamed.prec = 2 /\ O.unnamed.name = <<>>
           \/ \A t \in DOMAIN O.txns : \A p \in DOMAIN O.txns[t].posts : O.txns[t].posts[p].val[1] # -1
\* a code is a name of an account for others: it is the one of its line
CodesOK == Len(O.accts) = NA + 1 /\ \A k \in 1..NA : O.accts[k].code = J.accts[F.accts[k]].code
HoldsText(g) == CASE g = "codes" -> (Ready /\ O.res = "ok" => CodesOK)
                  [] g = "cents" -> (Ready /\ O.res = "ok" => CentsOK)
                  [] g = "order" -> (Ready /\ O.res = "ok" => Shape /\ \A t \in DOMAIN F.x : O.txns[t].desc = F.txns[t].desc /\ O.txns[t].time = F.x[t].time)
                  [] OTHER -> Holds(g)
FailingText == SelectSeq(C.groups, LAMBDA g : ~HoldsText(g))
JudgeText ==
  /\ verdict = "pending" /\ phase \in {"ready", "refused"}
  /\ verdict' = IF FailingText = <<>> THEN "accepted" ELSE "rejected"
  /\ PrintT(<<"@@", C.id, verdict', FailingText, Why, 0>>)
  /\ UNCHANGED <<vars, cs, round, T>>
NextText == StepText \/ JudgeText
SpecText == InitText /\ [][NextText]_textVars
=============================================================================
