----------------------------- MODULE ConfValue ----------------------------
(* Conformance: texts of values and balances (C13), arithmetic of balances *)
(* (C24) and dates (C27), one item of a case after another.                *)
(*                                                                         *)
(*   show   cu amt; plain, full: the texts without and with units          *)
(*   list   vals <<currency, amount>> curs; text: the text of the balance  *)
(*   date   text; res, time                                                *)
(*   bals   n registers, all empty at first; items are                     *)
(*     add r v / sub r v / addb r r2 / subb r r2 / dup r r2 (r2 becomes a  *)
(*     copy of r), each one with seen: what all the registers are then     *)
EXTENDS Integers, Sequences, Text, BigNum, Money, Calendar, Balance, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, k, regs, bad, done
vars == <<cs, k, regs, bad, done>>

C == Cases[cs]
X == C.items[k]

RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44, 32>> \o Join(Tail(ts))

After ==
  CASE X.op = "add"  -> [regs EXCEPT ![X.r] = BalAdd(@, X.v)]
    [] X.op = "sub"  -> [regs EXCEPT ![X.r] = BalSub(@, X.v)]
    [] X.op = "addb" -> [regs EXCEPT ![X.r] = BalSum(@, regs[X.r2])]
    [] X.op = "subb" -> [regs EXCEPT ![X.r] = BalSum(@, BalNeg(regs[X.r2]))]
    [] X.op = "dup"  -> [regs EXCEPT ![X.r2] = regs[X.r]]
    [] OTHER         -> regs

\* what cannot be stored is not covered
Stored == \A r \in DOMAIN After : BalFits(After[r])

Right ==
  CASE X.op = "show" -> /\ X.plain = <<Show(X.amt, X.cu, FALSE, FALSE), Show(X.amt, X.cu, FALSE, TRUE)>>
                        /\ X.full = <<Show(X.amt, X.cu, TRUE, FALSE), Show(X.amt, X.cu, TRUE, TRUE)>>
    [] X.op = "list" -> X.text = IF X.vals = <<>> THEN <<48>>
                                 ELSE Join([i \in DOMAIN X.vals |-> Show(X.vals[i][2], X.curs[X.vals[i][1]], FALSE, TRUE)])
    [] X.op = "date" -> LET t == GetDate(X.text) IN IF t = NoDate THEN X.res = "error" ELSE X.res = "ok" /\ X.time = t
    [] OTHER -> \A r \in DOMAIN regs : IsBalance(X.seen[r]) /\ SameBalance(X.seen[r], After[r])

Init == cs \in DOMAIN Cases /\ k = 1 /\ bad = <<>> /\ done = FALSE /\ regs = [r \in 1..Cases[cs].regs |-> <<>>]
Item == /\ ~done /\ k <= Len(C.items)
        /\ IF X.op \in {"show", "list", "date"} \/ Stored
           THEN /\ bad' = IF Right THEN bad ELSE Append(bad, ToString(k))
                /\ regs' = After /\ k' = k + 1
           ELSE k' = Len(C.items) + 1 /\ UNCHANGED <<bad, regs>>
        /\ UNCHANGED <<cs, done>>
Judge == /\ ~done /\ k > Len(C.items) /\ done' = TRUE
         /\ PrintT(<<"@@", C.id, IF bad = <<>> THEN "accepted" ELSE "rejected", bad, "ok", Len(C.items)>>)
         /\ UNCHANGED <<cs, k, regs, bad>>
Next == Item \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
