------------------------------ MODULE Balance -----------------------------
(* Balances: sequences of values <<currency, amount>>, no currency twice   *)
(* and no amount zero.                                                     *)
EXTENDS Integers, Sequences, BigNum

RECURSIVE BalFind(_, _, _)
BalFind(b, c, i) == IF i > Len(b) THEN 0 ELSE IF b[i][1] = c THEN i ELSE BalFind(b, c, i + 1)

\* the amount of currency c in balance b
AmountIn(b, c) == LET i == BalFind(b, c, 1) IN IF i = 0 THEN Zero ELSE b[i][2]

\* the last one takes the place of one that becomes zero
BalAdd(b, v) ==
  IF IsZero(v[2]) THEN b
  ELSE LET i == BalFind(b, v[1], 1) IN
       IF i = 0 THEN Append(b, v)
       ELSE LET sum == Add(b[i][2], v[2]) IN
            IF ~IsZero(sum) THEN [b EXCEPT ![i][2] = sum]
            ELSE SubSeq([b EXCEPT ![i] = b[Len(b)]], 1, Len(b) - 1)
BalSub(b, v) == BalAdd(b, <<v[1], Neg(v[2])>>)

RECURSIVE BalSum(_, _)
BalSum(b, vs) == IF vs = <<>> THEN b ELSE BalSum(BalAdd(b, vs[1]), Tail(vs))   \* b plus all of vs
BalNeg(b) == [i \in DOMAIN b |-> <<b[i][1], Neg(b[i][2])>>]

Fits(v) == InInt64(v[2]) /\ v[2] # Min64
BalFits(b) == \A i \in DOMAIN b : Fits(b[i])

\* the same balance, in any order
AsSet(b) == {b[i] : i \in DOMAIN b}
IsBalance(b) == /\ \A i \in DOMAIN b : ~IsZero(b[i][2])
                /\ \A i, j \in DOMAIN b : i # j => b[i][1] # b[j][1]
SameBalance(a, b) == Len(a) = Len(b) /\ AsSet(a) = AsSet(b)
=============================================================================
