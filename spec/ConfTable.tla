----------------------------- MODULE ConfTable -----------------------------
(* Conformance: the tables that the interactive commands show of a ledger  *)
(* (C.obs).  C.runs: command lines [b, e, pivots], with their status and   *)
(* the tables [depth, rows] that they showed.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

T == INSTANCE Table WITH Now <- <<73049, 0>>   \* 2200-01-01

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, posts, i, bad, done
vars == <<cs, posts, i, bad, done>>
C == Cases[cs]

Init == cs \in DOMAIN Cases /\ posts = T!Postings(Cases[cs].obs) /\ i = 1 /\ bad = <<>> /\ done = FALSE
Run == /\ ~done /\ i <= Len(C.runs)
       /\ bad' = IF T!TablesRight(C.obs, posts, C.runs[i], C.runs[i].status, C.runs[i].tables) THEN bad ELSE Append(bad, "run " \o ToString(i))
       /\ i' = i + 1 /\ UNCHANGED <<cs, posts, done>>
Judge == /\ ~done /\ i > Len(C.runs) /\ done' = TRUE
         /\ PrintT(<<"@@", C.id, IF bad = <<>> THEN "accepted" ELSE "rejected", bad, "ok", Len(C.runs)>>)
         /\ UNCHANGED <<cs, posts, i, bad>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
