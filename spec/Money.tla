------------------------------- MODULE Money ------------------------------
(* Reading and printing of amounts.                                        *)
(* The marks of a currency are [thou, dec, prec]: its thousands and        *)
(* decimal marks (ASCII codes, 0 if not known) and its precision.          *)
EXTENDS Integers, Sequences, Text, BigNum

NoMarks == [thou |-> 0, dec |-> 0, prec |-> 0]
NumSet == {43, 45, 46, 44, 95, 39} \cup 48..57     \* + - . , _ ' and digits

LOCAL Wrong == [ok |-> FALSE]

LOCAL Marks0(m) == [punct |-> 0, punctPos |-> -1, thouPos |-> -1, decPos |-> -1,
                    thou |-> m.thou, dec |-> m.dec, err |-> FALSE]
LOCAL Bad(r) == [r EXCEPT !.err = TRUE]

\* One punctuation mark c at (0-based) position pos of an amount
LOCAL Punct(r0, c, pos) ==
  LET r1 == IF r0.punct = c   \* seen before: it must be the thousands mark
            THEN [r0 EXCEPT !.thou = c, !.thouPos = r0.punctPos, !.punct = 0, !.punctPos = -1]
            ELSE r0
  IN IF pos = 0 \/ c \in {43, 45} THEN Bad(r0)
     ELSE IF r1.thou = c \/ (r1.thou = 0 /\ r1.dec # 0 /\ r1.dec # c)
     THEN IF \/ r1.thouPos = -1 /\ pos > 3
             \/ r1.thouPos > -1 /\ pos - r1.thouPos # 4
             \/ r1.decPos > -1
          THEN Bad(r1)
          ELSE [r1 EXCEPT !.thou = c, !.thouPos = pos]
     ELSE LET r2 == IF r1.punct # 0   \* the other one was the thousands mark, this is the decimal one
                    THEN [r1 EXCEPT !.thou = r1.punct, !.dec = c, !.thouPos = r1.punctPos,
                                    !.punct = 0, !.punctPos = -1]
                    ELSE r1
          IN IF r2.dec = c \/ (r2.dec = 0 /\ r2.thou # 0 /\ r2.thou # c)
             THEN IF \/ r2.decPos > -1
                     \/ r2.thouPos > -1 /\ pos - r2.thouPos # 4
                  THEN Bad(r2)
                  ELSE [r2 EXCEPT !.dec = c, !.decPos = pos]
             ELSE IF r2.dec # 0 /\ r2.thou # 0 THEN Bad(r2)
             ELSE IF pos > 3 THEN [r2 EXCEPT !.dec = c, !.decPos = pos]
             ELSE [r2 EXCEPT !.punct = c, !.punctPos = pos]

RECURSIVE Scan(_, _, _)
LOCAL Scan(s, i, r) ==
  IF i > Len(s) \/ r.err THEN r
  ELSE IF IsDigit(s[i]) THEN Scan(s, i + 1, r)
  ELSE Scan(s, i + 1, Punct(r, s[i], i - 1))

LOCAL Pow10 == << Num(10), Num(100), Num(1000), Num(10000), Num(100000), Num(1000000), Num(10000000), Num(100000000) >>

\* The amount written in s, given the marks m of its currency:
\* [ok |-> FALSE], or [ok |-> TRUE, amt, marks] with the marks the currency has afterwards.
ReadAmount(s0, m) ==
  LET neg == s0[1] = 45
      s   == IF s0[1] \in {43, 45} THEN Tail(s0) ELSE s0
      n   == Len(s)
  IN IF n = 0 \/ ~IsDigit(s[n]) THEN Wrong
     ELSE LET r1 == Scan(s, 1, Marks0(m))
              r  == IF r1.punct # 0 /\ n - r1.punctPos # 4
                    THEN [r1 EXCEPT !.dec = r1.punct, !.decPos = r1.punctPos, !.punct = 0]
                    ELSE r1
              decimals == IF r.decPos = -1 THEN 0 ELSE n - r.decPos - 1
              digits   == FromDigits(SelectSeq(s, IsDigit))
              amt      == IF decimals = 8 THEN digits ELSE Mul(digits, Pow10[8 - decimals])
          IN IF \/ r.err
                \/ r.punct # 0                                              \* it could be any of both marks
                \/ r.thouPos > -1 /\ r.decPos = -1 /\ n - r.thouPos # 4     \* incomplete last group
                \/ decimals > 8 THEN Wrong
             ELSE IF ~Le(amt, Max64) THEN Wrong
             ELSE [ok |-> TRUE,
                   amt |-> IF neg THEN Neg(amt) ELSE amt,
                   marks |-> [thou |-> r.thou,
                              dec  |-> IF r.dec # 0 THEN r.dec ELSE IF r.thou # 46 THEN 46 ELSE 44,
                              prec |-> IF m.dec = 0 /\ r.decPos > -1 THEN decimals ELSE m.prec]]

\* Parts of a value: [ok |-> FALSE] or [ok |-> TRUE, amount, name, before, nospace]; v is trimmed and not empty
RECURSIVE FirstNotNum(_, _)
LOCAL FirstNotNum(v, i) == IF i > Len(v) \/ v[i] \notin NumSet THEN i ELSE FirstNotNum(v, i + 1)
RECURSIVE LastNotNum(_, _)
LOCAL LastNotNum(v, i) == IF i = 0 \/ v[i] \notin NumSet THEN i ELSE LastNotNum(v, i - 1)
SplitValue(v) ==
  LET r == IF v[1] \in {43, 45} \cup 48..57
           THEN LET i == FirstNotNum(v, 1) IN
                [ok |-> TRUE, amount |-> Upto(v, i - 1), name |-> Trim(From(v, i)),
                 before |-> FALSE, nospace |-> i <= Len(v) /\ ~IsSpace(v[i])]
           ELSE LET i == LastNotNum(v, Len(v)) IN
                IF i = 0 \/ i = Len(v) THEN Wrong
                ELSE [ok |-> TRUE, amount |-> From(v, i + 1), name |-> Trim(Upto(v, i)),
                      before |-> TRUE, nospace |-> ~IsSpace(v[i])]
  IN IF r.ok /\ Has(r.name, {61, 64}) THEN Wrong ELSE r

-----------------------------------------------------------------------------
(* Printing.  cu: [name, before, nospace, thou, dec, prec], where thou and *)
(* dec are texts; WithTexts gives them to a currency whose marks are codes.  *)

LOCAL Mark(c) == IF c = 0 THEN <<>> ELSE <<c>>
WithTexts(cu) == [name |-> cu.name, before |-> cu.before, nospace |-> cu.nospace, thou |-> Mark(cu.thou), dec |-> Mark(cu.dec), prec |-> cu.prec]
RECURSIVE Group(_, _)
LOCAL Group(d, thou) == IF Len(d) <= 3 THEN d ELSE Group(Upto(d, Len(d) - 3), thou) \o thou \o From(d, Len(d) - 2)
RECURSIVE PadLeft(_, _)
LOCAL PadLeft(d, n) == IF Len(d) >= n THEN d ELSE PadLeft(<<48>> \o d, n)
RECURSIVE LastNonZero(_, _)
LOCAL LastNonZero(d, i) == IF i = 0 \/ d[i] # 48 THEN i ELSE LastNonZero(d, i - 1)
LOCAL Max(a, b) == IF a > b THEN a ELSE b

\* all the significant digits if full, as many decimals as the precision otherwise
ShowNumber(amt, cu, full) ==
  LET d == PadLeft(Digits(amt), 9)
      int  == Upto(d, Len(d) - 8)
      frac == From(d, Len(d) - 7)
      n    == IF full THEN Max(cu.prec, LastNonZero(frac, 8)) ELSE cu.prec
  IN (IF Sign(amt) < 0 THEN <<45>> ELSE <<>>)
     \o Group(int, cu.thou)
     \o (IF n = 0 THEN <<>> ELSE (IF cu.dec = <<>> THEN <<46>> ELSE cu.dec) \o Upto(frac, n))

Show(amt, cu, full, units) ==
  LET sp == IF cu.nospace THEN <<>> ELSE <<32>> IN
  (IF units /\ cu.before THEN cu.name \o sp ELSE <<>>)
  \o ShowNumber(amt, cu, full)
  \o (IF units /\ ~cu.before THEN (IF cu.name = <<>> THEN <<>> ELSE sp) \o cu.name ELSE <<>>)
=============================================================================
