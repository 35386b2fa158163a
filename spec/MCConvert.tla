----------------------------- MODULE MCConvert -----------------------------
(* Lists of prices, all the small ones or a sample, and the conversions     *)
(* that they allow.                                                         *)
EXTENDS Convert, TLC, Json, IOUtils, FiniteSets

CONSTANTS NCurs,     \* number of currencies
          Times_,    \* days of prices
          Longest,   \* length of the lists
          Sample     \* how many lists (0: all of them)

EnvLongest == atoi(IOEnv.LONGEST)
EnvSample == atoi(IOEnv.SAMPLE)

VARIABLES todo, ps
vars == <<todo, ps>>

Rates == {<<2, 1>>, <<3, 2>>, <<1, 7>>}      \* 2, 3/2, 1/7 (cut)
RateOf == [r \in Rates |-> Quo(Mul(U, Num(r[1])), Num(r[2]))]
LOCAL Rate(r) == RateOf[r]
Choices == {x \in [day : Times_, cur : 1..NCurs, to : 1..NCurs, rate : Rates] : x.cur # x.to}
LOCAL Price(x) == [time |-> <<x.day, 43200>>, cur |-> x.cur, val |-> <<x.to, Rate(x.rate)>>, rate |-> x.rate]

\* list with one more price after all that are not later
LOCAL Insert(s, p) == SelectSeq(s, LAMBDA q : TimeLe(q.time, p.time)) \o <<p>> \o SelectSeq(s, LAMBDA q : TimeLt(p.time, q.time))

Init == /\ ps = <<>>
        /\ IF Sample = 0 THEN todo = <<>>
           ELSE \E k \in 1..Sample : todo = TLCEval([i \in 1..Longest |-> RandomElement(Choices)])
Next == /\ Len(ps) < Longest
        /\ \E x \in (IF Sample = 0 THEN Choices ELSE {todo[Len(ps) + 1]}) :
             /\ IF Sample # 0 \/ ps = <<>> THEN TRUE ELSE TimeLe(ps[Len(ps)].time, Price(x).time)
             /\ ps' = Insert(ps, Price(x))
        /\ UNCHANGED todo
Spec == Init /\ [][Next]_vars

Printed == (ps # <<>> /\ (Sample = 0 \/ Len(ps) = Longest)) =>
  PrintT(<<"@@", ToJson([i \in DOMAIN ps |-> [day |-> ps[i].time[1], cur |-> ps[i].cur, to |-> ps[i].val[1], amt |-> ps[i].val[2]]])>>)

-----------------------------------------------------------------------------
Curs == 1..NCurs
Amount == Mul(Num(10000), U)
At == {<<-5, 0>>, <<2, 0>>, <<2, 43200>>, <<5, 1000>>, <<50, 1>>}
Results == TLCEval([x \in Curs \X Curs \X At |-> Converted(ps, <<x[1], Amount>>, x[3], x[2])])
Reach == TLCEval([c \in Curs |-> ReachFrom(ps, {c})])

\* There is a conversion exactly if there is a chain of prices
Exists(R, reach) == \A x \in DOMAIN R : R[x].fits /\ (R[x].ok <=> x[2] \in reach[x[1]])
\* Nothing is converted into the same currency
Same(R) == \A c \in Curs : \A w \in At : R[<<c, c, w>>].ok /\ R[<<c, c, w>>].amt = Amount
\* With prices for the pair, the result lies between what its prices around that time say, and is what a price of that time says
Direct(R) == \A c, t \in Curs :
  LET p == Pair(ps, c, t)
      val == TLCEval([i \in DOMAIN p |-> Times(Amount, p[i].val[2])])
  IN (c # t /\ p # <<>>) => \A w \in At :
    LET r    == R[<<c, t, w>>].amt
        now  == {i \in DOMAIN p : p[i].time = w}
        prev == {i \in DOMAIN p : TimeLt(p[i].time, w)}
        next == {i \in DOMAIN p : TimeLt(w, p[i].time)}
        within(i, j) == (Le(val[i], r) /\ Le(r, val[j])) \/ (Le(val[j], r) /\ Le(r, val[i]))
    IN IF now # {} THEN r = val[CHOOSE i \in now : \A j \in now : i <= j]
       ELSE IF prev = {} THEN r = val[CHOOSE i \in next : \A j \in next : i <= j]
       ELSE IF next = {} THEN r = val[CHOOSE i \in prev : \A j \in prev : i >= j]
       ELSE within(CHOOSE i \in prev : \A j \in prev : i >= j, CHOOSE i \in next : \A j \in next : i <= j)
\* Prices of currencies that cannot be reached do not matter
Relevant(R, reach) == \A c \in Curs :
  LET qs == SelectSeq(ps, LAMBDA p : p.cur \in reach[c]) IN
  Len(qs) < Len(ps) => \A t \in Curs : \A w \in At :
    LET s == Converted(qs, <<c, Amount>>, w, t) IN R[<<c, t, w>>].ok = s.ok /\ R[<<c, t, w>>].amt = s.amt
\* If on every pair there is one price, what comes out is the product along some chain, each step cut
RECURSIVE Chains(_, _, _, _)
LOCAL Chains(c, a, t, seen) ==
  IF c = t THEN {a}
  ELSE UNION {Chains(ps[i].val[1], Times(a, ps[i].val[2]), t, seen \cup {c}) : i \in {k \in DOMAIN ps : ps[k].cur = c /\ ps[k].val[1] \notin seen}}
SomeChain(R) == (\A i, j \in DOMAIN ps : i # j => <<ps[i].cur, ps[i].val[1]>> # <<ps[j].cur, ps[j].val[1]>>) =>
  \A c, t \in Curs : LET ch == TLCEval(Chains(c, Amount, t, {})) IN \A w \in At : R[<<c, t, w>>].ok => R[<<c, t, w>>].amt \in ch

Right == LET R == Results reach == Reach IN
  /\ Exists(R, reach) /\ Same(R) /\ Direct(R) /\ SomeChain(R) /\ (Len(ps) <= 3 => Relevant(R, reach))
=============================================================================
