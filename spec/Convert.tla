------------------------------ MODULE Convert -----------------------------
(* Market prices and conversion of values between currencies.              *)
(* A price list is a sequence of [time, cur, val, ...] in order of time:   *)
(* one unit of cur is worth val (<<currency, amount>>).                    *)
EXTENDS Integers, Sequences, BigNum, Calendar

\* amount a times price r: rounded down
Times(a, r) == Floor(Mul(a, r), U)

Pair(ps, c, t) == SelectSeq(ps, LAMBDA p : p.cur = c /\ p.val[1] = t)

LOCAL Earlier(ps, when) == SelectSeq(ps, LAMBDA p : TimeLt(p.time, when))
LOCAL Exact(ps, when) == SelectSeq(ps, LAMBDA p : p.time = when)
LOCAL Later(ps, when) == SelectSeq(ps, LAMBDA p : TimeLt(when, p.time))
LOCAL Last(s) == s[Len(s)]

\* The price that a list of prices of one pair (not empty) gives at a time
PriceAt(ps, when) ==
  LET before == Earlier(ps, when)
      now    == Exact(ps, when)
      after  == Later(ps, when)
  IN IF now # <<>> THEN now[1].val[2]
     ELSE IF after = <<>> THEN Last(before).val[2]
     ELSE IF before = <<>> THEN after[1].val[2]
     ELSE LET p == Last(before)
              n == after[1]
          IN Add(p.val[2], Quo(Mul(Sub(n.val[2], p.val[2]), Seconds(p.time, when)), Seconds(p.time, n.time)))

\* The price nearest in time of a list (not empty)
Nearest(ps, when) ==
  LET before == Earlier(ps, when)
      rest   == SelectSeq(ps, LAMBDA p : TimeLe(when, p.time))
  IN IF rest = <<>> THEN Last(before)
     ELSE IF before = <<>> THEN rest[1]
     ELSE IF Lt(Seconds(when, rest[1].time), Seconds(Last(before).time, when)) THEN rest[1] ELSE Last(before)

(* Amount a of currency c in currency t: [ok, amt, fits, seen].  seen are  *)
(* the currencies that have been tried; fits tells whether every amount on *)
(* the way can be stored.                                                  *)
RECURSIVE Conv(_, _, _, _, _, _)
Conv(ps, c, a, when, t, seen0) ==
  LET seen == seen0 \cup {c}
      direct == Pair(ps, c, t)
      result(x) == [ok |-> TRUE, amt |-> x, fits |-> InInt64(x), seen |-> seen]
  IN IF c = t THEN result(a)
     ELSE IF direct # <<>> THEN LET r == PriceAt(direct, when) IN [result(Times(a, r)) EXCEPT !.fits = @ /\ InInt64(r)]
     ELSE LET cand == SelectSeq(ps, LAMBDA p : p.cur = c /\ p.val[1] \notin seen) IN
          IF cand = <<>> THEN [ok |-> FALSE, amt |-> Zero, fits |-> TRUE, seen |-> seen]
          ELSE LET via  == Nearest(cand, when).val[1]
                   rate == PriceAt(Pair(ps, c, via), when)
                   x    == Times(a, rate)
                   r    == Conv(ps, via, x, when, t, seen)
               IN IF r.ok THEN [r EXCEPT !.fits = @ /\ InInt64(x) /\ InInt64(rate)]
                  ELSE LET r2 == Conv(ps, c, a, when, t, r.seen) IN [r2 EXCEPT !.fits = @ /\ r.fits /\ InInt64(x) /\ InInt64(rate)]

\* what a value v is in currency t
Converted(ps, v, when, t) ==
  IF t = 0 THEN [ok |-> FALSE, amt |-> Zero, fits |-> TRUE, seen |-> {}] ELSE Conv(ps, v[1], v[2], when, t, {})

-----------------------------------------------------------------------------
\* Another way to say when there is a conversion: a chain of prices
RECURSIVE ReachFrom(_, _)
ReachFrom(ps, S) ==
  LET S2 == S \cup {ps[i].val[1] : i \in {k \in DOMAIN ps : ps[k].cur \in S}} IN
  IF S2 = S THEN S ELSE ReachFrom(ps, S2)
Reachable(ps, c, t) == t \in ReachFrom(ps, {c})
=============================================================================
