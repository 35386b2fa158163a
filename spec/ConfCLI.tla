------------------------------ MODULE ConfCLI ------------------------------
(* Conformance: what the command line prints of a ledger (C.obs).          *)
(*   C.runs    command lines, with what they printed (lines, without more  *)
(*             spaces than one, and pairs: their two sides), and raw: the  *)
(*             number of each line (equal lines have equal numbers); and   *)
(*             blocks, of "print": the number of what is printed for each  *)
(*             transaction                                                 *)
(*   C.full    the blocks of "print" without any limits                    *)
(*   C.chains  several of them in one command line (parts), in order       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

R == INSTANCE Report WITH Now <- <<73049, 0>>   \* 2200-01-01: nothing that depends on it has later prices

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, posts, i, j, bad, done
vars == <<cs, posts, i, j, bad, done>>

C == Cases[cs]

RunRight(r) ==
  IF r.cmd # "print" THEN R!ReportRight(C.obs, posts, r, r.status, r.lines, r.pairs)
  ELSE LET S == R!Selected(C.obs, posts, r) IN
       IF S.wrong THEN r.status = "fail" /\ r.raw = <<>>
       ELSE /\ r.status = "ok" /\ Len(C.full) = Len(C.obs.txns)
            /\ r.blocks = [n \in DOMAIN S.txns |-> C.full[S.txns[n]]]

\* Commands run one after another, each one as if it was alone, up to the first one that fails
RECURSIVE InOrder(_)
InOrder(parts) ==
  IF parts = <<>> THEN [raw |-> <<>>, status |-> "ok"]
  ELSE LET r == C.runs[parts[1]] rest == InOrder(Tail(parts)) IN
       IF r.status # "ok" THEN [raw |-> r.raw, status |-> r.status]
       ELSE [raw |-> r.raw \o rest.raw, status |-> rest.status]
ChainRight(c) == [raw |-> c.raw, status |-> c.status] = InOrder(c.parts)

Init == cs \in DOMAIN Cases /\ posts = R!Postings(Cases[cs].obs) /\ i = 1 /\ j = 1 /\ bad = <<>> /\ done = FALSE
Run == /\ ~done /\ i <= Len(C.runs)
       /\ bad' = IF C.judge => RunRight(C.runs[i]) THEN bad ELSE Append(bad, "run " \o ToString(i))
       /\ i' = i + 1 /\ UNCHANGED <<cs, posts, j, done>>
Chain == /\ ~done /\ i > Len(C.runs) /\ j <= Len(C.chains)
         /\ bad' = IF ChainRight(C.chains[j]) THEN bad ELSE Append(bad, "chain " \o ToString(j))
         /\ j' = j + 1 /\ UNCHANGED <<cs, posts, i, done>>
Judge == /\ ~done /\ i > Len(C.runs) /\ j > Len(C.chains) /\ done' = TRUE
         /\ PrintT(<<"@@", C.id, IF bad = <<>> THEN "accepted" ELSE "rejected", bad, "ok", Len(C.runs) + Len(C.chains)>>)
         /\ UNCHANGED <<cs, posts, i, j, bad>>
Next == Run \/ Chain \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
