----------------------------- MODULE MCBalance -----------------------------
(* Some balances, and all the operations with them that there may be: they  *)
(* are always what the sums of every currency are.                          *)
EXTENDS Balance, TLC, Json, IOUtils

CONSTANTS NRegs, NCurs, Longest, Sample

EnvLongest == atoi(IOEnv.LONGEST)
EnvSample == atoi(IOEnv.SAMPLE)
Amounts == {1, -1, 2, 0}

VARIABLES todo, regs, sums, hist
vars == <<todo, regs, sums, hist>>

Regs == 1..NRegs
Op(k, r, r2, c, a) == [op |-> k, r |-> r, r2 |-> r2, c |-> c, a |-> a]
Ops == {Op(k, r, 1, c, a) : k \in {"add", "sub"}, r \in Regs, c \in 1..NCurs, a \in Amounts}
       \cup {Op(k, r, r2, 1, 0) : k \in {"addb", "subb", "dup"}, r \in Regs, r2 \in Regs}

Init ==
  /\ regs = [r \in Regs |-> <<>>] /\ sums = [r \in Regs |-> [c \in 1..NCurs |-> 0]] /\ hist = <<>>
  /\ IF Sample = 0 THEN todo = <<>>
     ELSE \E k \in 1..Sample : todo = TLCEval([i \in 1..Longest |-> RandomElement(Ops)])

Add1(s, c, a) == [s EXCEPT ![c] = @ + a]
Do(x) ==
  /\ regs' = CASE x.op = "add"  -> [regs EXCEPT ![x.r] = BalAdd(@, <<x.c, Num(x.a)>>)]
               [] x.op = "sub"  -> [regs EXCEPT ![x.r] = BalSub(@, <<x.c, Num(x.a)>>)]
               [] x.op = "addb" -> [regs EXCEPT ![x.r] = BalSum(@, regs[x.r2])]
               [] x.op = "subb" -> [regs EXCEPT ![x.r] = BalSum(@, BalNeg(regs[x.r2]))]
               [] x.op = "dup"  -> [regs EXCEPT ![x.r2] = regs[x.r]]
  /\ sums' = CASE x.op = "add"  -> [sums EXCEPT ![x.r] = Add1(@, x.c, x.a)]
               [] x.op = "sub"  -> [sums EXCEPT ![x.r] = Add1(@, x.c, -x.a)]
               [] x.op = "addb" -> [sums EXCEPT ![x.r] = [c \in 1..NCurs |-> @[c] + sums[x.r2][c]]]
               [] x.op = "subb" -> [sums EXCEPT ![x.r] = [c \in 1..NCurs |-> @[c] - sums[x.r2][c]]]
               [] x.op = "dup"  -> [sums EXCEPT ![x.r2] = sums[x.r]]
  /\ hist' = Append(hist, x) /\ UNCHANGED todo
Next == Len(hist) < Longest /\ \E x \in (IF Sample = 0 THEN Ops ELSE {todo[Len(hist) + 1]}) : Do(x)
Spec == Init /\ [][Next]_vars

Right == \A r \in Regs :
  /\ IsBalance(regs[r])
  /\ \A c \in 1..NCurs : AmountIn(regs[r], c) = Num(sums[r][c])
  /\ (\A c \in 1..NCurs : sums[r][c] = 0) <=> regs[r] = <<>>
Printed == Len(hist) = Longest => PrintT(<<"@@", ToJson([i \in DOMAIN hist |-> <<hist[i].op, hist[i].r, hist[i].r2, hist[i].c, hist[i].a>>])>>)
=============================================================================
