--------------------------------- MODULE Units ---------------------------------
(* Quantities with units.  A quantity is [neg, m, u]: its value is            *)
(* (-)m * 10^-24 with m a natural number, and u gives the exponent of each    *)
(* base unit.  Naturals are sequences of digits base W, lowest first, without *)
(* leading zeros (TLC's integers have 32 bits).                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS W, WD,          \* the base and its decimal digits: W = 10^WD
          FW              \* digits base W after the decimal point

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) < At(b, i) THEN -1 ELSE IF At(a, i) > At(b, i) THEN 1 ELSE Cmp(a, b, i - 1)
NCmp(a, b) == Cmp(a, b, Max2(Len(a), Len(b)))
NLe(a, b) == NCmp(a, b) <= 0
NLt(a, b) == NCmp(a, b) < 0

RECURSIVE Carry(_, _, _, _)        \* settles digit sums f[i..n] (each below 2^31 - W) into digits
Carry(f, i, n, c) == IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c % W>> \o Carry(f, i + 1, n, c \div W))
                     ELSE LET x == f[i] + c IN <<x % W>> \o Carry(f, i + 1, n, x \div W)
NAdd(a, b) == LET n == Max2(Len(a), Len(b)) IN Carry([i \in 1..n |-> At(a, i) + At(b, i)], 1, n, 0)
NSub(a, b) == Trim(Carry([i \in 1..Len(a) |-> a[i] - At(b, i)], 1, Len(a), 0))       \* a >= b; % and \div round down
Diff(a, b) == IF NLe(b, a) THEN NSub(a, b) ELSE NSub(b, a)
RECURSIVE Sum(_, _, _, _)
Sum(a, b, k, i) == IF i > Min2(k, Len(a)) THEN 0 ELSE a[i] * At(b, k + 1 - i) + Sum(a, b, k, i + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE LET n == Len(a) + Len(b) - 1 IN Trim(Carry([k \in 1..n |-> Sum(a, b, k, Max2(1, k + 1 - Len(b)))], 1, n, 0))
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % W>> \o OfInt(n \div W)
Shift(a, n) == IF a = <<>> THEN a ELSE [i \in 1..(Len(a) + n) |-> IF i <= n THEN 0 ELSE a[i - n]]
Drop(a, n) == IF Len(a) <= n THEN <<>> ELSE SubSeq(a, n + 1, Len(a))
Pow10(e) == Shift(<<10 ^ (e % WD)>>, e \div WD)
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN <<1>> ELSE NMul(a, NPow(a, k - 1))
One == Shift(<<1>>, FW)            \* 1.0
RECURSIVE Low(_)                   \* decimal digits of n
Low(n) == IF n = 0 THEN 0 ELSE 1 + Low(n \div 10)
Digits(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * WD + Low(a[Len(a)])
Even(a) == At(a, 1) % 2 = 0
DivPow(a, e) ==                    \* a \div 10^e
  LET d == Drop(a, e \div WD) p == 10 ^ (e % WD)
  IN Trim([i \in 1..Len(d) |-> d[i] \div p + (At(d, i + 1) % p) * (W \div p)])
(* a rounded to a multiple of 10^e, halves to even *)
RoundTo(a, e) ==
  IF e <= 0 THEN a
  ELSE LET p == Pow10(e)
           q == DivPow(a, e)
           r == NSub(a, NMul(q, p))
           c == NCmp(NAdd(r, r), p)
       IN NMul(IF c > 0 \/ (c = 0 /\ ~Even(q)) THEN NAdd(q, <<1>>) ELSE q, p)
Signif(a, p) == IF p <= 0 THEN a ELSE RoundTo(a, Digits(a) - p)     \* a to p significant digits

----------------------------------------------------------------------------
(* m * 10^e, with digits beyond 10^-24 only if they are zero                  *)
Dec(m, e) == IF e >= -(FW * WD) THEN NMul(m, Pow10(e + FW * WD)) ELSE DivPow(m, -(FW * WD) - e)
IsNeg(q) == q.neg /\ q.m # <<>>
VCmp(a, b) ==
  IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1)
  ELSE IF IsNeg(a) THEN NCmp(b.m, a.m) ELSE NCmp(a.m, b.m)
Neg(a) == [a EXCEPT !.neg = ~@]
Add(a, b) ==
  IF a.neg = b.neg THEN [a EXCEPT !.m = NAdd(a.m, b.m)]
  ELSE IF NLe(b.m, a.m) THEN [a EXCEPT !.m = NSub(a.m, b.m)] ELSE [b EXCEPT !.m = NSub(b.m, a.m)]
Sub(a, b) == Add(a, Neg(b))
UMul(u, v, s) == [k \in DOMAIN u |-> u[k] + s * v[k]]
Mul(a, b) == [neg |-> a.neg # b.neg, m |-> Drop(NMul(a.m, b.m), FW), u |-> UMul(a.u, b.u, 1)]
VEq(a, b) == a.m = b.m /\ IsNeg(a) = IsNeg(b)
(* q is a / b up to what a reciprocal with so many fraction digits can give:  *)
(* |q b - a| <= 8 (1 + |a|) (1 + |b|) 10^-24                                   *)
Quot(q, a, b) ==
  LET e == NMul(q.m, b.m)
      x == NMul(a.m, One)
      d == IF NLe(e, x) THEN NSub(x, e) ELSE NSub(e, x)
  IN /\ q.m # <<>> => q.neg = (a.neg # b.neg)
     /\ NLe(d, NMul(<<8>>, NAdd(Drop(NMul(NAdd(b.m, One), NAdd(a.m, One)), FW), <<1>>)))

(* The whole number nearest to a, halves to even.                             *)
Whole(a) == Drop(RoundTo(a.m, FW * WD), FW)

(* Core steps of base b in a time t or in the period of a frequency f.        *)
Near(n, x, y) ==                   \* n is x / y to the nearest, halves to even
  LET l == NMul(<<2>>, NMul(n, y)) r == NMul(<<2>>, x)
      d == IF NLe(l, r) THEN NSub(r, l) ELSE NSub(l, r)
      c == NCmp(d, y)
  IN c < 0 \/ (c = 0 /\ Even(n))
=============================================================================
