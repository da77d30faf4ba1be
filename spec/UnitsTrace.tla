------------------------------ MODULE UnitsTrace ------------------------------
(* Recorded calls on quantities and time conversions.  Quantities shown by    *)
(* the code are given as [neg, m, u] with m read from the printed digits.     *)
EXTENDS Units, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
Prefix == [a |-> -18, f |-> -15, p |-> -12, n |-> -9, u |-> -6, m |-> -3, k |-> 3, K |-> 3, M |-> 6, G |-> 9, T |-> 12, P |-> 15, E |-> 18]
Binary == [ki |-> 1, Ki |-> 1, Mi |-> 2, Gi |-> 3, Ti |-> 4, Pi |-> 5, Ei |-> 6]
U0 == [s |-> 0, B |-> 0, b |-> 0, events |-> 0]
Unit == [s |-> [U0 EXCEPT !.s = 1], B |-> [U0 EXCEPT !.B = 1], b |-> [U0 EXCEPT !.b = 1], events |-> [U0 EXCEPT !.events = 1],
         event |-> [U0 EXCEPT !.events = 1], Hz |-> [U0 EXCEPT !.s = -1], hz |-> [U0 EXCEPT !.s = -1],
         Bps |-> [U0 EXCEPT !.B = 1, !.s = -1], bps |-> [U0 EXCEPT !.b = 1, !.s = -1], one |-> U0]

(* A text: sign, mantissa d * 10^e, and factors [p, w, n]: prefix, unit, n = 1 *)
(* in the numerator and -1 in the denominator.                                 *)
RECURSIVE Exp10(_), Bin(_), UnitOf(_)
Exp10(f) == IF f = <<>> THEN 0 ELSE f[1].n * (IF f[1].p \in DOMAIN Prefix THEN Prefix[f[1].p] ELSE 0) + Exp10(Tail(f))
Bin(f) == IF f = <<>> THEN 0 ELSE f[1].n * (IF f[1].p \in DOMAIN Binary THEN Binary[f[1].p] ELSE 0) + Bin(Tail(f))
UnitOf(f) == IF f = <<>> THEN U0 ELSE UMul(UnitOf(Tail(f)), Unit[f[1].w], f[1].n)
Parse(t) == [neg |-> t.neg = 1, m |-> NMul(Dec(t.d, t.e + Exp10(t.f)), NPow(<<1024>>, Bin(t.f))), u |-> UnitOf(t.f)]

Q(v) == [neg |-> v.neg = 1, m |-> v.m, u |-> v.u]
Same(v, q) == VEq(Q(v), q) /\ v.u = q.u
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
St0(h) == [o |-> <<>>, base |-> Parse(h.base)]
Put(s, i, q) == [s EXCEPT !.o = (i :> q) @@ @]

SU == [U0 EXCEPT !.s = 1]
HU == [U0 EXCEPT !.s = -1]
MaxTime == NSub(NPow(<<2>>, 64), <<1>>)
(* f b may have more digits than a number can hold; then the nearest count is  *)
(* not required, but one within what 36 digits allow                           *)
(* what the conversion of a time or frequency to core steps may give          *)
FactorOk(b, q, r) ==
  LET x == IF q.u = SU THEN q.m ELSE NMul(One, One)
      y == IF q.u = SU THEN b.m ELSE NMul(q.m, b.m)
  IN IF q.u \notin {SU, HU} THEN r.kind = "unit"
     ELSE IF q.m = <<>> THEN (q.u = SU => r.kind = "ok" /\ r.m = <<>>)      \* no time is no steps; 0Hz is left open
     ELSE IF q.neg THEN r.kind \in {"small", "large"}
     ELSE IF NLt(x, y) THEN r.kind = "small"
     ELSE IF q.u = HU /\ NLe(Diff(NMul(y, MaxTime), x), Drop(x, 3)) THEN r.kind \in {"ok", "large"}
     ELSE IF NLt(NMul(y, MaxTime), x) THEN r.kind = "large"
     ELSE r.kind = "ok" /\ (Near(r.m, x, y) \/ (q.u = HU /\ At(y, 1) # 0 /\ NLe(Diff(NMul(r.m, y), x), NAdd(y, NMul(r.m, Pow10(12))))))

Cmps(a, b) ==
  LET c == VCmp(a, b) B(x) == IF x THEN "1" ELSE "0"
  IN IF a.u # b.u THEN <<"0", "1", "refused", "refused", "refused", "refused">>
     ELSE <<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0)>>
Close(v, q, p) ==          \* v shows q to p digits, give or take one in the last
  LET d == IF NLe(v.m, q.m) THEN NSub(q.m, v.m) ELSE NSub(v.m, q.m)
  IN /\ (v.m # <<>> => (v.neg = 1) = q.neg) /\ v.u = q.u
     /\ NLe(d, NAdd(Pow10(Max2(0, Digits(q.m) - (IF p <= 0 THEN 18 ELSE Min2(p, 18)))), <<1>>))

Do(s, r) ==
  CASE r.op = "set" -> LET q == Parse(r.t) IN R(Put(s, r.o, q), Same(r.r, q), "the text was read as another quantity")
    [] r.op = "copy" -> R(Put(s, r.o, s.o[r.a]), Same(r.r, s.o[r.a]), "the copy differs")
    [] r.op = "add" -> IF s.o[r.a].u # s.o[r.b].u THEN R(s, r.kind = "refused", "quantities with different units were added")
                       ELSE LET q == Add(s.o[r.a], s.o[r.b]) IN R(Put(s, r.o, q), r.kind = "ok" /\ Same(r.r, q), "wrong sum")
    [] r.op = "sub" -> IF s.o[r.a].u # s.o[r.b].u THEN R(s, r.kind = "refused", "quantities with different units were subtracted")
                       ELSE LET q == Sub(s.o[r.a], s.o[r.b]) IN R(Put(s, r.o, q), r.kind = "ok" /\ Same(r.r, q), "wrong difference")
    [] r.op = "mul" -> LET q == Mul(s.o[r.a], s.o[r.b]) IN R(Put(s, r.o, q), Same(r.r, q), "wrong product")
    [] r.op = "times" -> LET q == Mul(s.o[r.a], [neg |-> r.n.neg = 1, m |-> NMul(r.n.m, One), u |-> U0]) IN
                         R(Put(s, r.o, q), Same(r.r, q), "wrong product with a number")
    [] r.op = "div" -> LET q == Q(r.r) IN R(Put(s, r.o, q), Quot(q, s.o[r.a], s.o[r.b]) /\ q.u = UMul(s.o[r.a].u, s.o[r.b].u, -1), "wrong quotient")
    [] r.op = "inv" -> LET q == Q(r.r) IN
                       R(Put(s, r.o, q), Quot(q, [neg |-> FALSE, m |-> One], s.o[r.a]) /\ q.u = UMul(U0, s.o[r.a].u, -1), "wrong reciprocal")
    [] r.op = "cmp" -> R(s, r.r = Cmps(s.o[r.a], s.o[r.b]), "wrong comparison, should be " \o ToString(Cmps(s.o[r.a], s.o[r.b])))
    [] r.op = "has" -> R(s, r.r = (IF s.o[r.a].u = UnitOf(r.f) THEN 1 ELSE 0), "wrong unit test")
    [] r.op = "zero" -> R(s, r.r = (IF s.o[r.a].m = <<>> THEN 1 ELSE 0), "wrong test for zero")
    [] r.op = "round" -> LET w == Whole(s.o[r.a]) IN R(s, r.m = w /\ (w # <<>> => (r.neg = 1) = s.o[r.a].neg), "not the nearest whole number")
    [] r.op = "double" -> R(s, Close(r.r, [s.o[r.a] EXCEPT !.u = U0], 13), "the floating-point value is not close")
    [] r.op = "str" -> R(s, Same(r.r, [s.o[r.a] EXCEPT !.m = Signif(@, IF r.p > 48 THEN 0 ELSE r.p)]), "the text shows another value")
    [] r.op = "best" -> R(s, Close(r.r, s.o[r.a], r.p), "the text with prefix shows another value")
    [] r.op = "ser" -> R(Put(s, r.o, s.o[r.a]), Same(r.r, s.o[r.a]), "the serialized copy differs")
    [] r.op = "factor" -> LET q == IF r.how = "text" THEN Parse(r.t) ELSE s.o[r.a] IN
                          R(s, FactorOk(s.base, q, r), "wrong number of core steps: " \o ToString(<<r.kind, r.m>>))
    [] r.op = "conv" -> R(s, (NLe(NMul(r.c, r.m), MaxTime) => r.to = NMul(r.c, r.m)) /\ NLe(NMul(r.from, r.m), r.t) /\ NLt(r.t, NMul(NAdd(r.from, <<1>>), r.m)),
                          "wrong conversion between component and core time")
    [] OTHER -> R(s, FALSE, "unknown call")
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================
