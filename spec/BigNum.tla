------------------------------ MODULE BigNum ------------------------------
(* Exact integers of any size, because TLC's own integers have 32 bits and *)
(* amounts have 64 (and products of amounts 128).                          *)
(* A number is <<sign, limb1, limb2, ...>>: sign is -1, 0 or 1, the limbs  *)
(* are in base 10^4, the least significant first, with no zero limb at the *)
(* end; zero is <<0>>.                                                     *)
EXTENDS Integers, Sequences
LOCAL B == 10000

Zero == <<0>>

LOCAL Mag(a) == Tail(a)

RECURSIVE StripMag(_)
LOCAL StripMag(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN StripMag(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Mk(s, m) == LET n == StripMag(m) IN IF n = <<>> \/ s = 0 THEN Zero ELSE <<s>> \o n

LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

\* a number from one of TLC's integers
RECURSIVE IntMag(_)
LOCAL IntMag(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o IntMag(n \div B)
Num(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN <<1>> \o IntMag(n) ELSE <<-1>> \o IntMag(-n)

One == Num(1)

RECURSIVE CmpMagAt(_, _, _)
LOCAL CmpMagAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpMagAt(a, b, i - 1)
LOCAL CmpMag(a, b) ==
  IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpMagAt(a, b, Len(a))

RECURSIVE AddMagAt(_, _, _, _)
LOCAL AddMagAt(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == At(a, i) + At(b, i) + c IN <<s % B>> \o AddMagAt(a, b, i + 1, s \div B)
LOCAL AddMag(a, b) == AddMagAt(a, b, 1, 0)

RECURSIVE SubMagAt(_, _, _, _)
LOCAL SubMagAt(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - At(b, i) - c IN
       IF s < 0 THEN <<s + B>> \o SubMagAt(a, b, i + 1, 1) ELSE <<s>> \o SubMagAt(a, b, i + 1, 0)
LOCAL SubMag(a, b) == SubMagAt(a, b, 1, 0)  \* a >= b

Neg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)
Abs(a) == IF a[1] < 0 THEN Neg(a) ELSE a
Sign(a) == a[1]
IsZero(a) == a[1] = 0

Add(a, b) ==
  IF a[1] = 0 THEN b
  ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], AddMag(Mag(a), Mag(b)))
  ELSE LET c == CmpMag(Mag(a), Mag(b)) IN
       IF c = 0 THEN Zero
       ELSE IF c > 0 THEN Mk(a[1], SubMag(Mag(a), Mag(b)))
       ELSE Mk(b[1], SubMag(Mag(b), Mag(a)))
Sub(a, b) == Add(a, Neg(b))

Cmp(a, b) ==
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF a[1] = 0 THEN 0
  ELSE a[1] * CmpMag(Mag(a), Mag(b))
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0

\* products of magnitudes: up to 20 limbs each
RECURSIVE ColSum(_, _, _, _)
LOCAL ColSum(a, b, k, i) ==
  IF i > Len(a) \/ i > k THEN 0
  ELSE (IF k - i + 1 <= Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + ColSum(a, b, k, i + 1)
RECURSIVE MulMagAt(_, _, _, _)
LOCAL MulMagAt(a, b, k, c) ==
  IF k > Len(a) + Len(b) THEN <<>>
  ELSE LET s == ColSum(a, b, k, 1) + c IN <<s % B>> \o MulMagAt(a, b, k + 1, s \div B)
Mul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero ELSE Mk(a[1] * b[1], MulMagAt(Mag(a), Mag(b), 1, 0))

\* magnitude times a small number
RECURSIVE MulSmallAt(_, _, _, _)
LOCAL MulSmallAt(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % B>> \o MulSmallAt(a, d, i + 1, s \div B)
LOCAL MulSmall(a, d) == StripMag(MulSmallAt(a, d, 1, 0))

\* the biggest d in lo..hi with b * d <= r
RECURSIVE Digit(_, _, _, _)
LOCAL Digit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF CmpMag(MulSmall(b, m), r) <= 0 THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)

\* schoolbook division of magnitudes, from limb i down: quotient limbs (least significant first)
RECURSIVE DivMagAt(_, _, _, _, _)
LOCAL DivMagAt(a, b, i, r, q) ==
  IF i = 0 THEN q
  ELSE LET r2 == StripMag(<<a[i]>> \o r)
           d  == IF CmpMag(r2, b) < 0 THEN 0 ELSE Digit(r2, b, 1, B - 1)
       IN DivMagAt(a, b, i - 1, IF d = 0 THEN r2 ELSE StripMag(SubMag(r2, MulSmall(b, d))), <<d>> \o q)

\* quotient truncated toward zero; b # 0
Quo(a, b) ==
  IF a[1] = 0 THEN Zero
  ELSE Mk(a[1] * b[1], DivMagAt(Mag(a), Mag(b), Len(a) - 1, <<>>, <<>>))
Rem(a, b) == Sub(a, Mul(b, Quo(a, b)))
\* quotient rounded down; b > 0
Floor(a, b) == LET q == Quo(a, b) IN IF a[1] < 0 /\ Mul(q, b) # a THEN Sub(q, One) ELSE q

Max64 == <<1, 5807, 5477, 368, 3372, 922>>     \* 2^63 - 1
Min64 == <<-1, 5808, 5477, 368, 3372, 922>>    \* -2^63
InInt64(a) == Le(a, Max64) /\ Le(Min64, a)

U == Num(100000000)

\* decimal digits of |a|, as ASCII codes, with no leading zeros ("0" for zero)
LOCAL Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE DigitsAt(_, _)
LOCAL DigitsAt(m, i) == IF i = 0 THEN <<>> ELSE Pad4(m[i]) \o DigitsAt(m, i - 1)
RECURSIVE DropZeros(_)
LOCAL DropZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s
Digits(a) == IF a[1] = 0 THEN <<48>> ELSE DropZeros(DigitsAt(Mag(a), Len(a) - 1))

\* the number whose decimal digits (ASCII codes) are s
RECURSIVE FromDigitsMag(_, _)
LOCAL FromDigitsMag(s, n) ==   \* n digits of s, from the end
  IF n = 0 THEN <<>>
  ELSE LET d(k) == IF n - k >= 1 THEN s[n - k] - 48 ELSE 0
       IN <<d(0) + 10 * d(1) + 100 * d(2) + 1000 * d(3)>> \o FromDigitsMag(s, IF n > 4 THEN n - 4 ELSE 0)
FromDigits(s) == Mk(1, FromDigitsMag(s, Len(s)))
=============================================================================
