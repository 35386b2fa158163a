---------------------------- MODULE ConfMomentum --------------------------
(* Conformance: what the command muscular prints of a ledger (C.obs).      *)
(*   C.runs  command lines, each one of several parts [names, b, e, wrong, *)
(*           months, days, n] (wrong: a period that is not one) which     *)
(*           were separated by --, with the lines (without spaces before   *)
(*           them) that were printed                                       *)
EXTENDS Momentum, TLC, Json, IOUtils

Now == <<73049, 0>>   \* 2200-01-01
R == INSTANCE Report

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, i, bad, done
vars == <<cs, i, bad, done>>
C == Cases[cs]

Currency(name) == LET k == {x \in DOMAIN C.obs.currs : C.obs.currs[x].name = name} IN IF k = {} THEN 0 ELSE CHOOSE x \in k : TRUE

\* the lines that a part has to print: <<name, growth>>
Part(p) == LET end == IF p.e = <<>> THEN Now ELSE R!EndTime(p.e) IN
  [k \in DOMAIN p.names |-> <<p.names[k], Growth(C.obs.prices, Currency(p.names[k]), end, p.months, p.days, p.n, C.obs.dflt)>>]
Wrong(p) == p.wrong \/ (p.e # <<>> /\ R!EndTime(p.e) = NoDate) \/ (p.b # <<>> /\ R!BeginTime(p.b) = NoDate)
RECURSIVE All(_)
All(ps) == IF ps = <<>> THEN [ok |-> TRUE, lines |-> <<>>]
           ELSE IF Wrong(ps[1]) THEN [ok |-> FALSE, lines |-> <<>>]
           ELSE LET rest == All(Tail(ps)) IN [ok |-> rest.ok, lines |-> Part(ps[1]) \o rest.lines]
RunRight(r) ==
  LET a == TLCEval(All(r.parts)) IN
  /\ r.status = (IF a.ok THEN "ok" ELSE "fail")
  /\ Len(r.lines) = Len(a.lines)
  /\ \A k \in DOMAIN a.lines : LineRight(r.lines[k], a.lines[k][1], a.lines[k][2])

Init == cs \in DOMAIN Cases /\ i = 1 /\ bad = <<>> /\ done = FALSE
Run == /\ ~done /\ i <= Len(C.runs)
       /\ bad' = IF RunRight(C.runs[i]) THEN bad ELSE Append(bad, "run " \o ToString(i))
       /\ i' = i + 1 /\ UNCHANGED <<cs, done>>
Judge == /\ ~done /\ i > Len(C.runs) /\ done' = TRUE
         /\ PrintT(<<"@@", C.id, IF bad = <<>> THEN "accepted" ELSE "rejected", bad, "ok", Len(C.runs)>>)
         /\ UNCHANGED <<cs, i, bad>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
