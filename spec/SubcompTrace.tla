---------------------------- MODULE SubcompTrace ----------------------------
(* Construction of all components, then the untimed data, the run and what   *)
(* the parts ask for during the run.  Header: nd[n] with the ports it was    *)
(* given, ends[e] = [port, n, peer, lat, sm, rm] (marks of the modules on    *)
(* sending and receiving), sc[id] statistics, lev[type].                     *)
EXTENDS Subcomp, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
Lev(h) == [t \in DOMAIN h.lev |-> [x \in {h.lev[t][i].k : i \in DOMAIN h.lev[t]} |-> h.lev[t][CHOOSE i \in DOMAIN h.lev[t] : h.lev[t][i].k = x].v]]
Nd(h) == [n \in DOMAIN h.nd |-> [h.nd[n] EXCEPT !.stats = [x \in {h.nd[n].stats[i].k : i \in DOMAIN h.nd[n].stats} |->
                                   h.nd[n].stats[CHOOSE i \in DOMAIN h.nd[n].stats : h.nd[n].stats[i].k = x].v]]]
St0(h) == LET nd == Nd(h) IN
  [nd |-> nd, lev |-> Lev(h), sc |-> h.sc, ends |-> h.ends, pn |-> [e \in DOMAIN h.ends |-> h.ends[e].port],
   own |-> [e \in DOMAIN h.ends |-> h.ends[e].n], cf |-> [e \in DOMAIN h.ends |-> 0], fl |-> [n \in DOMAIN nd |-> 0],
   live |-> {}, fr |-> [n \in DOMAIN nd |-> << >>], tb |-> [n \in DOMAIN nd |-> 0], db |-> [e \in DOMAIN h.ends |-> 0],
   obj |-> [n \in DOMAIN nd |-> {}], hi |-> {}, fly |-> {}, selfs |-> {}, stills |-> {}]
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]

Flags(f) == f % 8
Frame0 == [x |-> "", want |-> << >>, got |-> << >>, fl |-> 0, slot |-> "", num |-> 0, type |-> "", by |-> 0]
Push(s, n, f) == [s EXCEPT !.fr[Root(s.nd, n)] = Append(@, f)]
Top(s, n) == LET q == s.fr[Root(s.nd, n)] IN q[Len(q)]
SetTop(s, n, f) == LET q == s.fr[Root(s.nd, n)] IN [s EXCEPT !.fr[Root(s.nd, n)] = [q EXCEPT ![Len(q)] = f]]
Pop(s, n) == LET q == s.fr[Root(s.nd, n)] IN [s EXCEPT !.fr[Root(s.nd, n)] = SubSeq(q, 1, Len(q) - 1)]
Api(s, c) == IF s.nd[c].type = "vfsc.SubB" THEN 2 ELSE 1
\* children the configuration has for a slot and number that can be loaded with the asked interface; 0 for nothing
Cand(s, n, slot, num, api) ==
  LET C == {c \in InSlot(s.nd, {}, n, slot) : s.nd[c].num = num /\ Api(s, c) = api} IN IF C = {} THEN 0 ELSE CHOOSE c \in C : TRUE
Load(s, r) ==
  LET n == Eff(s.nd, r.n)
      C == InSlot(s.nd, {}, n, r.a)
      mx == Max({s.nd[c].num : c \in C})
      w == IF r.s = "one" THEN <<Cand(s, n, r.a, mx, r.k)>>
           ELSE IF r.s = "info" THEN <<Cand(s, n, r.a, r.i, r.k)>>
           ELSE [i \in 1..(mx + 1) |-> Cand(s, n, r.a, i - 1, 1)]
  IN Push(s, n, [Frame0 EXCEPT !.x = r.s, !.want = w, !.fl = Flags(r.j), !.by = r.n])
RECURSIVE Nulls(_)
Nulls(w) == IF w # << >> /\ Head(w) = 0 THEN <<0>> \o Nulls(Tail(w)) ELSE << >>
Who(s, r) ==
  LET e == Eff(s.nd, r.n)  d == s.nd[e] IN
  r.a = d.name /\ r.b = d.type /\ r.s = s.nd[Root(s.nd, r.n)].name /\ r.i = (IF d.kind = "anon" THEN 1 ELSE 0) /\ r.j = d.coord
New(s, r) ==
  LET n == r.n  d == s.nd[n]  z == [s EXCEPT !.live = @ \cup {n}] IN
  IF d.kind = "comp" THEN R(z, n \notin s.live /\ Who(s, r), << "component", r, d >>)
  ELSE IF s.fr[Root(s.nd, n)] = << >> THEN R(s, FALSE, << "nothing was being loaded", r >>)
  ELSE LET f == Top(s, n)  k == Len(Nulls(f.want)) IN
    IF n \in s.live \/ (IF f.x \in {"anon", "ext"} THEN d.parent # f.by ELSE d.parent # Eff(s.nd, f.by)) THEN R(s, FALSE, << "constructed in the wrong place", r >>)
    ELSE IF f.x \in {"anon", "ext"} THEN
      R(SetTop([z EXCEPT !.fl[n] = f.fl], n, [f EXCEPT !.got = Append(@, n)]),
        f.got = << >> /\ d.kind = f.x /\ (f.x = "ext" \/ (d.slot = f.slot /\ d.num = f.num /\ d.type = f.type)) /\ Who(s, r), << "loaded", f, "constructed", r, d >>)
    ELSE R(SetTop([z EXCEPT !.fl[n] = f.fl], n, [f EXCEPT !.want = SubSeq(@, k + 2, Len(@)), !.got = @ \o Nulls(f.want) \o <<n>>]),
           k < Len(f.want) /\ f.want[k + 1] = n /\ Who(s, r), << "to be loaded", f.want, "constructed", r, d >>)
Ret(s, r) ==
  LET n == r.n IN
  IF s.fr[Root(s.nd, n)] = << >> THEN R(s, FALSE, << "no load", r >>)
  ELSE LET f == Top(s, n)
           got == f.got \o Nulls(f.want)
           rest == SubSeq(f.want, Len(Nulls(f.want)) + 1, Len(f.want))
           res == [i \in DOMAIN got |-> IF got[i] = 0 THEN 0 ELSE 1]
           some == SelectSeq(res, LAMBDA x : x = 1)
       IN R(Pop(s, n),
            f.by = n /\ rest = << >> /\
            IF r.x = "many" THEN r.l = (IF f.x = "all" THEN res ELSE some)
            ELSE IF f.x = "ext" THEN Len(got) = 1 /\ r.i = 1
            ELSE IF f.x = "anon" THEN Len(got) = 1 /\ r.i = 1
            ELSE res = <<r.i>>, << "load of", f, "gave", r >>)
Conf(s, r) ==
  LET n == Eff(s.nd, r.n)  e == Take(s.nd, s.pn, s.own, s.cf, s.fl, n, r.a) IN
  IF e = 0 THEN R(s, r.i = 0, << "no link is granted", r >>)
  ELSE R([s EXCEPT !.own[e] = n, !.cf[e] = r.n, !.db[e] = IF r.j = 0 THEN s.tb[n] ELSE r.j], r.i = 1 /\ s.cf[e] = 0, << "granted", e, s.ends[e], "got", r >>)
Tb(s, r) ==
  LET n == Eff(s.nd, r.n) IN
  R(IF r.j = 0 THEN s ELSE [s EXCEPT !.tb[n] = r.i, !.db = [e \in DOMAIN s.db |-> IF s.own[e] = n /\ s.cf[e] # 0 /\ s.db[e] = 0 THEN r.i ELSE s.db[e]]], TRUE, << >>)
Mine(s, r) == {e \in DOMAIN s.cf : s.cf[e] = r.n /\ s.pn[e] = r.a}
The(S) == CHOOSE x \in S : TRUE
StatR(s, r) ==
  LET n == Eff(s.nd, r.n)  o == Root(s.nd, n)  d == Declares(s.nd, s.fl, s.lev, n, r.a)
      x == Stat(s.nd, s.fl, s.lev, s.sc, n, r.a, r.b)
      nm == IF x.key = << >> THEN "" ELSE s.nd[x.owner].name \o "/" \o x.name \o "/" \o x.sub
      ok == /\ r.l = <<IF d = 0 THEN 0 ELSE 1>>
            /\ (r.j = 0) = (x.key = << >>)
            /\ r.j # 0 => /\ r.s = nm /\ r.k = x.tok
                          /\ \A p \in s.obj[o] : (p[1] = x.key) = (p[2] = r.j)
  IN R(IF r.j = 0 THEN s ELSE [s EXCEPT !.obj[o] = @ \cup {<<x.key, r.j>>}], ok, << "statistic", x, nm, "got", r >>)
SlotR(s, r) ==
  LET n == Eff(s.nd, r.n)  N == {s.nd[c].num : c \in InSlot(s.nd, s.live, n, r.a)} IN
  R(s, /\ r.i = Max(N)
       /\ N # {} => r.j = (IF \A i \in 0..Max(N) : i \in N THEN 1 ELSE 0) /\ r.l = [i \in 1..6 |-> IF i - 1 \in N THEN 1 ELSE 0], << "slot", N, "reported", r >>)
Port(s, e) == ToString(s.cf[e]) \o "." \o s.pn[e]
Do(s, r) ==
  CASE r.x = "new" -> New(s, r)
    [] r.x = "load" -> R(Load(s, r), TRUE, << >>)
    [] r.x = "anon" -> R(Push(s, r.n, [Frame0 EXCEPT !.x = "anon", !.fl = Flags(r.j), !.slot = r.a, !.num = r.i, !.type = r.s, !.by = r.n]), TRUE, << >>)
    [] r.x = "extn" -> R(Push(s, r.n, [Frame0 EXCEPT !.x = "ext", !.by = r.n]), TRUE, << >>)
    [] r.x \in {"ret", "many"} -> Ret(s, r)
    [] r.x = "conf" -> Conf(s, r)
    [] r.x = "conn" -> R(s, r.i = (IF At(s.pn, s.own, Eff(s.nd, r.n), r.a) = {} THEN 0 ELSE 1), << "connected", r >>)
    [] r.x = "tb" -> Tb(s, r)
    [] r.x = "slot" -> SlotR(s, r)
    [] r.x = "stat" -> StatR(s, r)
    [] r.x = "self" -> R(s, r.i = 1, << "self link", r >>)
    [] r.x = "dtb" -> R(s, Mine(s, r) # {} /\ s.db[The(Mine(s, r))] = r.i, << "default time base", r, [e \in Mine(s, r) |-> s.db[e]] >>)
    [] r.x = "hi" ->
         LET E == Mine(s, r) IN
         IF E = {} THEN R(s, FALSE, << "not configured here", r >>)
         ELSE LET e == The(E)  p == s.ends[e].peer IN
           R([s EXCEPT !.hi = @ \cup {e}], e \notin s.hi /\ s.cf[p] # 0 /\ r.b = Port(s, p) /\ r.i = 1, << "untimed data", r, "peer", s.ends[p], s.cf[p] >>)
    [] r.x = "snd" ->
         LET E == Mine(s, r) IN
         IF E = {} THEN R(s, FALSE, << "not configured here", r >>)
         ELSE LET e == The(E)  p == s.ends[e].peer IN
           R([s EXCEPT !.fly = @ \cup {[e |-> p, t |-> r.t + s.ends[e].lat, b |-> Port(s, e) \o s.ends[e].sm \o s.ends[p].rm]}], e \in s.hi, << "send", r >>)
    [] r.x = "got" ->
         LET E == Mine(s, r) IN
         IF E = {} THEN R(s, FALSE, << "not configured here", r >>)
         ELSE LET e == The(E)
                  X == {y \in s.fly : y.e = e /\ y.b = r.b /\ IF s.ends[e].poll THEN y.t <= r.t ELSE y.t = r.t} IN
           IF X = {} THEN R(s, FALSE, << "nothing of this kind is under way here", r, {y \in s.fly : y.e = e} >>)
           ELSE R([s EXCEPT !.fly = @ \ {CHOOSE y \in X : \A z \in X : y.t <= z.t}], TRUE, << >>)
    [] r.x = "ssnd" -> R([s EXCEPT !.selfs = @ \cup {[n |-> r.n, a |-> r.a, t |-> r.t + 3000]}], TRUE, << >>)
    [] r.x = "sgot" -> LET y == [n |-> r.n, a |-> r.a, t |-> r.t] IN
         R([s EXCEPT !.selfs = @ \ {y}], y \in s.selfs /\ r.b = ToString(r.n) \o "." \o r.a, << "self link", r, s.selfs >>)
    [] r.x = "still" -> R([s EXCEPT !.stills = @ \cup {r.n}], r.n \in s.live \ s.stills /\ Who(s, r), << "during the run", r, s.nd[Eff(s.nd, r.n)] >>)
    [] r.x = "built" ->
         R(s, (\A n \in DOMAIN s.fr : s.fr[n] = << >>) /\ \A n \in DOMAIN s.nd : s.nd[n].kind = "comp" => n \in s.live, << "unfinished", s.live >>)
    [] r.x = "done" ->
         LET D == {e \in DOMAIN s.cf : s.cf[e] # 0 /\ s.cf[s.ends[e].peer] # 0} IN
         R(s, s.hi = D /\ s.fly = {} /\ s.selfs = {} /\ s.stills = s.live, << "untimed data missing", D \ s.hi, "events missing", s.fly, s.selfs, "no clock", s.live \ s.stills >>)
    [] OTHER -> R(s, FALSE, << "unknown", r >>)
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================
