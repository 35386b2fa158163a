------------------------------- MODULE MCShow ------------------------------
(* How amounts are shown: what their texts have to be, seen from outside.   *)
EXTENDS Money, TLC, Json, IOUtils

CONSTANT Sample
EnvSample == atoi(IOEnv.SAMPLE)

VARIABLES amt, cu
vars == <<amt, cu>>

LOCAL P10 == [k \in 0..18 |-> FromDigits(<<49>> \o [i \in 1..k |-> 48])]
LOCAL Near(x) == {x, Add(x, One), Sub(x, One)}
Numbers == {Zero, Max64, Sub(Max64, One), Add(Min64, One), Min64, FromDigits(<<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56>>)}
           \cup UNION {Near(P10[k]) : k \in 0..18} \cup {Mul(Num(123), P10[k]) : k \in 0..15}
Signed == Numbers \cup {Neg(x) : x \in Numbers \ {Min64}}
Currencies == [name : {<<>>, <<36>>, <<69, 85, 82>>}, before : BOOLEAN, nospace : BOOLEAN, prec : 0..8,
               thou : {<<>>, <<46>>, <<44>>, <<39>>, <<226, 128, 175>>}, dec : {<<>>, <<46>>, <<44>>, <<194, 183>>}]
Distinct(c) == c.thou # c.dec /\ ~(c.dec = <<>> /\ c.thou = <<46>>)

Init == IF Sample = 0 THEN amt = Zero /\ cu \in {c \in Currencies : c.name # <<>> /\ ~c.before /\ Distinct(c)}
        ELSE \E k \in 1..Sample : amt = RandomElement(Signed) /\ cu = RandomElement({c \in Currencies : Distinct(c)})
Next == Sample = 0 /\ IsZero(amt) /\ amt' \in Signed /\ UNCHANGED cu
Spec == Init /\ [][Next]_vars

Dec == IF cu.dec = <<>> THEN <<46>> ELSE cu.dec
\* t with its sign taken away
Body(t) == IF Sign(amt) < 0 THEN Tail(t) ELSE t
LOCAL StartsWith(t, p) == Len(t) >= Len(p) /\ Upto(t, Len(p)) = p
RECURSIVE Whole(_, _)
\* a whole number, with marks every three digits from its end
LOCAL Whole(t, first) ==
  IF Len(t) <= 3 THEN (t # <<>> \/ ~first) /\ \A i \in DOMAIN t : IsDigit(t[i])
  ELSE /\ \A i \in Len(t) - 2..Len(t) : IsDigit(t[i])
       /\ LET r == Upto(t, Len(t) - 3) IN
          /\ Len(r) > Len(cu.thou) /\ From(r, Len(r) - Len(cu.thou) + 1) = cu.thou
          /\ Whole(Upto(r, Len(r) - Len(cu.thou)), FALSE)
LOCAL AsNumber(t) == FromDigits(SelectSeq(t, IsDigit))
\* t shows amt with n decimals, cut
Shows(t, n) ==
  /\ Sign(amt) < 0 <=> t[1] = 45
  /\ LET b == Body(t)
         w == IF n = 0 THEN b ELSE Upto(b, Len(b) - n - Len(Dec))
     IN /\ w # <<>> /\ Whole(w, TRUE) /\ (Len(SelectSeq(w, IsDigit)) > 1 => w[1] # 48)
        /\ n > 0 => /\ SubSeq(b, Len(w) + 1, Len(w) + Len(Dec)) = Dec
                    /\ \A i \in Len(b) - n + 1..Len(b) : IsDigit(b[i])
        /\ AsNumber(b) = Quo(Abs(amt), P10[8 - n])
LOCAL Max(a, b) == IF a > b THEN a ELSE b
\* decimals that amt needs
Needed == CHOOSE n \in 0..8 : IsZero(Rem(Abs(amt), P10[8 - n])) /\ \A k \in 0..n - 1 : ~IsZero(Rem(Abs(amt), P10[8 - k]))
Full == Show(amt, cu, TRUE, FALSE)
Plain == Show(amt, cu, FALSE, FALSE)
LOCAL Space == IF cu.nospace THEN <<>> ELSE <<32>>
WithUnits(t) == IF cu.before THEN cu.name \o Space \o t ELSE IF cu.name = <<>> THEN t ELSE t \o Space \o cu.name
Right == /\ Shows(Full, Max(cu.prec, Needed)) /\ Shows(Plain, cu.prec)
         /\ Show(amt, cu, TRUE, TRUE) = WithUnits(Full) /\ Show(amt, cu, FALSE, TRUE) = WithUnits(Plain)
Printed == PrintT(<<"@@", ToJson([amt |-> amt, cu |-> cu])>>)
=============================================================================
