-------------------------------- MODULE MCUnits --------------------------------
(* The arithmetic of Units with few digits, against TLC's own integers, for   *)
(* every pair of quantities; and the laws users rely on.                      *)
EXTENDS Units
CONSTANTS N            \* quantities -N..N in units of the last place
VARIABLES x, y, z
vars == <<x, y, z>>
U0 == [s |-> 0]
S == W ^ FW
Abs(i) == IF i < 0 THEN -i ELSE i
V(i) == [neg |-> i < 0, m |-> OfInt(Abs(i)), u |-> U0]
RECURSIVE NInt(_)
NInt(a) == IF a = <<>> THEN 0 ELSE a[1] + W * NInt(Tail(a))
Val(q) == IF q.neg THEN -NInt(q.m) ELSE NInt(q.m)
Tr(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Zs == {-7, 0, 1, 13}

Init == x \in -N..N /\ y \in -N..N /\ z \in Zs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

AddExact == Val(Add(V(x), V(y))) = x + y /\ Val(Sub(V(x), V(y))) = x - y
MulExact == Val(Mul(V(x), V(y))) = Tr(x * y, S)
CmpExact == VCmp(V(x), V(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0) /\ (VEq(V(x), V(y)) <=> x = y)
Assoc == VEq(Add(Add(V(x), V(y)), V(z)), Add(V(x), Add(V(y), V(z))))
Nearest == LET n == NInt(Whole(V(x))) a == Abs(x) IN
             /\ 2 * Abs(n * S - a) <= S /\ (2 * Abs(n * S - a) = S => n % 2 = 0)
Steps == (x > 0 /\ y > 0) =>
           LET f == CHOOSE n \in 0..(x \div y + 1) : Near(OfInt(n), OfInt(x), OfInt(y))
           IN 2 * Abs(f * y - x) <= y
(* at most one answer, so text, quantity and frequency cannot differ          *)
OneAnswer == (x > 0 /\ y > 0) =>
               \A n, k \in {x \div y, x \div y + 1} : Near(OfInt(n), OfInt(x), OfInt(y)) /\ Near(OfInt(k), OfInt(x), OfInt(y)) => n = k
Sig == \A p \in 1..3 : LET a == Abs(x) r == NInt(Signif(OfInt(a), p)) e == Max2(0, Digits(OfInt(a)) - p) IN
         r % (10 ^ e) = 0 /\ 2 * Abs(r - a) <= 10 ^ e
=============================================================================
