------------------------------ MODULE ConfReg ------------------------------
(* Conformance: registrations and openings, by several goroutines, and     *)
(* the optional operations of a ledger (C21).                              *)
(*                                                                         *)
(* kind "registry": C.events, in any order, each one with the times when   *)
(*   it began and ended (inv, ret): the specification takes one of them    *)
(*   after another, and every one takes effect between these times.  What  *)
(*   a backend does while it opens a source takes effect after its opening *)
(*   has found the backend: an opening takes effect between inv and the    *)
(*   first time (look) when something else shows that it has found it.     *)
(* kind "ask": C.asks, questions to a ledger, with what the backend was    *)
(*   asked (calls) and what was answered.                                  *)
EXTENDS Integers, Sequences, FiniteSets, Text, Registry, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, reg, left, bad, done
vars == <<cs, reg, left, bad, done>>

C == Cases[cs]

Mode(d) == C.modes[d]

\* what event e gives when the registry is reg
RightEvent(e) ==
  IF e.op = "register" THEN e.res = IF Accepts(reg, e.name, e.driver) THEN "ok" ELSE "panic"
  ELSE IF e.source # <<>> /\ e.source[1] = 58 THEN e.res = "error"     \* starts with ':'
  ELSE LET d == Opener(reg, Scheme(e.source)) IN
       IF d = 0 \/ Mode(d) # "ok" THEN e.res = "error"
       ELSE e.res = "ok" /\ e.by = d /\ e.asked = e.source

After(e) == IF e.op = "register" THEN Registered(reg, e.name, e.driver) ELSE reg

Init == /\ cs \in DOMAIN Cases /\ reg = Empty /\ bad = <<>> /\ done = FALSE
        /\ left = DOMAIN Cases[cs].events

First(i) == \A j \in left : C.events[i].inv < C.events[j].ret
Take(i) == First(i) /\ RightEvent(C.events[i])
Event == /\ ~done /\ C.kind = "registry" /\ left # {}
         /\ \E i \in left : Take(i) /\ left' = left \ {i} /\ reg' = After(C.events[i])
         /\ UNCHANGED <<cs, bad, done>>

-----------------------------------------------------------------------------
\* The optional operations

Kept(op) == \E k \in DOMAIN C.provides : C.provides[k] = op
Positions(P(_)) == SelectSeq([t \in DOMAIN C.txns |-> t], P)
FirstOf(P(_)) == LET s == {k \in DOMAIN C.accts : P(k)} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j

\* when the backend does it: called once, with the same things, and its answer is the answer
Delegated(a) ==
  /\ a.calls = << <<a.op>> \o a.args >>
  /\ a.err = IF a.fail /\ a.op \notin {"account", "inacct", "interval", "refresh"} THEN "its own" ELSE "nil"
  /\ a.answer = CASE a.op \in {"flush", "close", "refresh"} -> <<>>
                  [] a.op \in {"inacct", "interval"} -> IF a.fail THEN <<>> ELSE <<-1, 0, -1>>
                  [] OTHER -> IF a.fail THEN <<0>> ELSE <<-1>>

BuiltIn(a) ==
  /\ a.calls = <<>>
  /\ CASE a.op = "account"  -> a.err = "nil" /\ a.answer = << FirstOf(LAMBDA k : C.accts[k] = a.args[1]) >>
       [] a.op = "inacct"   -> a.err = "nil" /\ a.answer = Positions(LAMBDA t : \E k \in DOMAIN C.txns[t].accts : C.accts[C.txns[t].accts[k]] = a.args[1])
       [] a.op = "interval" -> a.err = "nil" /\ a.answer = Positions(LAMBDA t : a.t <= C.txns[t].time /\ C.txns[t].time <= a.t2)
       [] a.op = "flush"    -> a.err = "nil"
       [] OTHER             -> a.err = "error" /\ a.answer = <<0>>

RightAsk(a) == IF a.op \in {"close", "refresh"} \/ Kept(a.op) THEN Delegated(a) ELSE BuiltIn(a)
WrongAsks == SelectSeq([k \in DOMAIN C.asks |-> k], LAMBDA k : ~RightAsk(C.asks[k]))

Judge == /\ ~done /\ done' = TRUE
         /\ IF C.kind = "registry" THEN left = {} \/ ~ENABLED Event ELSE TRUE
         /\ LET ok == IF C.kind = "registry" THEN left = {} ELSE WrongAsks = <<>> IN
            PrintT(<<"@@", C.id, IF ok THEN "accepted" ELSE "rejected",
                     [k \in 1..(IF C.kind = "registry" THEN 0 ELSE Len(WrongAsks)) |-> ToString(WrongAsks[k])], "ok",
                     IF C.kind = "registry" THEN Cardinality(left) ELSE Len(C.asks)>>)
         /\ UNCHANGED <<cs, reg, left, bad>>
Next == Event \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
