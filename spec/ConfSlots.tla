----------------------------- MODULE ConfSlots ----------------------------
(* Conformance: what happened to several ledgers in one process.           *)
(*                                                                         *)
(* C.refs    what every source contains when it is opened alone, 0 if it   *)
(*           cannot be opened                                              *)
(* C.slots   number of slots                                               *)
(* C.events  what was done and seen, in order:                             *)
(*   open slot src res;  clone slot to;  change slot;  fill slot res;      *)
(*   ask slot question answer (numbers, the same for equal things);        *)
(*   look slot content: what a slot contains then                          *)
(*   heap objects: for every slot, the objects its ledger is made of       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, i, why, content, computed, said, changed
vars == <<cs, i, why, content, computed, said, changed>>

C == Cases[cs]
E == C.events[i]
NoLedger == 0
Unknown == -1      \* after a change, until somebody looks

\* C.slots <= 32
S == INSTANCE Slots WITH Slot <- 1..32, Content <- Nat

Init == /\ cs \in DOMAIN Cases /\ i = 1 /\ why = ""
        /\ content = [s \in 1..32 |-> 0] /\ computed = {}
        /\ said = <<>>      \* <<content, question, answer>>
        /\ changed = {}     \* slots that were changed and have not been looked at since

Sure(s) == s \notin changed
Bad(reason) == why' = reason /\ UNCHANGED <<content, computed, said, changed>>
Same == UNCHANGED <<content, computed, said, changed, why>>

DoOpen ==
  IF C.refs[E.src] = 0 THEN IF E.res = "error" THEN S!OpenFails(E.slot) /\ UNCHANGED <<said, changed, why>> ELSE Bad("opened")
  ELSE IF E.res # "ok" THEN Bad("not opened")
  ELSE S!OpenAs(E.slot, C.refs[E.src]) /\ changed' = changed \ {E.slot} /\ UNCHANGED <<said, why>>

DoClone ==
  IF content[E.slot] = 0 THEN Same
  ELSE IF E.res # "ok" THEN Bad("not cloned")
  ELSE /\ S!Clone(E.slot, E.to)
       /\ changed' = (IF Sure(E.slot) THEN changed \ {E.to} ELSE changed \cup {E.to})
       /\ UNCHANGED <<said, why>>

\* content is decided when somebody looks; until then it is what it was
DoChange ==
  IF content[E.slot] = 0 THEN Same
  ELSE IF E.res \notin {"ok", "none", "error"} THEN Bad("change fails")
  ELSE /\ S!Change(E.slot, content[E.slot]) /\ changed' = changed \cup {E.slot} /\ UNCHANGED <<said, why>>

DoFill ==
  IF content[E.slot] = 0 THEN Same
  ELSE IF E.slot \in computed
  THEN IF E.res # "ok" THEN Bad("computing again fails")
       ELSE S!Fill(E.slot, content[E.slot]) /\ UNCHANGED <<said, changed, why>>
  ELSE IF E.res \notin {"ok", "error"} THEN Bad("computing fails")
  ELSE S!Fill(E.slot, content[E.slot]) /\ changed' = changed \cup {E.slot} /\ UNCHANGED <<said, why>>

DoAsk ==
  IF content[E.slot] = 0 THEN Same
  ELSE IF E.res \notin {"ok", "error", "none"} THEN Bad("a question ends in " \o E.res)
  ELSE IF ~Sure(E.slot) \/ E.question = 0 THEN Same
  ELSE IF \E k \in DOMAIN said : said[k][1] = content[E.slot] /\ said[k][2] = E.question /\ said[k][3] # E.answer THEN Bad("another answer")
  ELSE said' = Append(said, <<content[E.slot], E.question, E.answer>>) /\ S!Ask(E.slot) /\ UNCHANGED <<changed, why>>

DoLook ==
  IF content[E.slot] = 0 THEN IF E.content = 0 THEN Same ELSE Bad("from nothing")
  ELSE IF Sure(E.slot) THEN IF E.content = content[E.slot] THEN Same ELSE Bad("changed")
  ELSE /\ content' = [content EXCEPT ![E.slot] = E.content] /\ changed' = changed \ {E.slot}
       /\ UNCHANGED <<computed, said, why>>

AsSet(s) == {s[k] : k \in DOMAIN s}
DoHeap ==
  IF \E a, b \in DOMAIN E.objects : a < b /\ AsSet(E.objects[a]) \cap AsSet(E.objects[b]) # {} THEN Bad("shared objects") ELSE Same

Step == /\ why = "" /\ i <= Len(C.events)
        /\ CASE E.op = "open" -> DoOpen
             [] E.op = "clone" -> DoClone
             [] E.op = "change" -> DoChange
             [] E.op = "fill" -> DoFill
             [] E.op = "ask" -> DoAsk
             [] E.op = "look" -> DoLook
             [] E.op = "heap" -> DoHeap
        /\ i' = i + 1 /\ UNCHANGED cs
Judge == /\ why # "judged" /\ (why # "" \/ i > Len(C.events))
         /\ PrintT(<<"@@", C.id, IF why = "" THEN "accepted" ELSE "rejected", IF why = "" THEN <<>> ELSE <<why>>, ToString(i - 1), Len(C.events)>>)
         /\ why' = "judged" /\ UNCHANGED <<cs, i, content, computed, said, changed>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
