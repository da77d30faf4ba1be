------------------------------ MODULE Subcomp -------------------------------
(* The tree of one component: which link, which statistic and which slot     *)
(* content a part of it gets.                                                *)
(*  nd[n]  node n: [kind, parent, ...]; kind is comp, user, anon or ext.  An *)
(*         extension acts as the node it was loaded into.                    *)
(*  own[e] the node whose port link end e is at; cf[e] the node that         *)
(*         configured it, 0 while none has.                                  *)
(*  fl[n]  the sharing flags node n was loaded with: 1 ports, 2 statistics,  *)
(*         4 may insert statistics.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Eff(_, _)
Eff(nd, n) == IF nd[n].kind = "ext" THEN Eff(nd, nd[n].parent) ELSE n
RECURSIVE Root(_, _)
Root(nd, n) == IF nd[n].kind = "comp" THEN n ELSE Root(nd, nd[n].parent)
Up(nd, n) == Eff(nd, nd[n].parent)
Has(fl, n, b) == (fl[n] \div b) % 2 = 1
Below(nd, n) == nd[n].kind # "comp"

(* Ports.  A node has the links configured for it.  Asked for one it does    *)
(* not have, it gets the nearest one above it that nobody has configured, if *)
(* every node on the way up was loaded with shared ports.                    *)
At(pn, own, n, p) == {e \in DOMAIN own : own[e] = n /\ pn[e] = p}
RECURSIVE Above(_, _, _, _, _, _, _)
Above(nd, pn, own, cf, fl, n, p) ==
  IF ~Below(nd, n) \/ ~Has(fl, n, 1) THEN 0
  ELSE LET m == Up(nd, n)  E == {e \in At(pn, own, m, p) : cf[e] = 0} IN
       IF E # {} THEN CHOOSE e \in E : TRUE ELSE Above(nd, pn, own, cf, fl, m, p)
\* The link node n gets for port p, 0 for none.
Take(nd, pn, own, cf, fl, n, p) ==
  LET E == At(pn, own, n, p) IN IF E # {} THEN CHOOSE e \in E : TRUE ELSE Above(nd, pn, own, cf, fl, n, p)

(* Statistics.  lev[type] gives the level of each statistic a type declares. *)
RECURSIVE Declares(_, _, _, _, _)
\* the nearest node that declares statistic s, going up where statistics are shared; 0 for none
Declares(nd, fl, lev, n, s) ==
  IF s \in DOMAIN lev[nd[n].type] THEN n
  ELSE IF Below(nd, n) /\ Has(fl, n, 2) THEN Declares(nd, fl, lev, Up(nd, n), s) ELSE 0
RECURSIVE Find(_, _, _, _, _)
\* who enables statistic s: a node that names it, or one that enables all; others pass it up where that was granted
Find(nd, fl, n, s, level) ==
  IF s \in DOMAIN nd[n].stats THEN [how |-> "named", n |-> n]
  ELSE IF nd[n].all THEN IF level > nd[n].level THEN [how |-> "none", n |-> n] ELSE [how |-> "all", n |-> n]
  ELSE IF Below(nd, n) /\ Has(fl, n, 4) THEN Find(nd, fl, Up(nd, n), s, level)
  ELSE [how |-> "none", n |-> n]
NoStat == [key |-> << >>, owner |-> 0, name |-> "", sub |-> "", tok |-> 0]
\* The statistic node n gets: its identity (equal keys are one object), owner, name and parameter.
Stat(nd, fl, lev, sc, n, s, sub) ==
  LET d == Declares(nd, fl, lev, n, s) IN
  IF d = 0 THEN NoStat
  ELSE LET f == Find(nd, fl, d, s, lev[nd[d].type][s])  r == Root(nd, n) IN
    IF f.how = "none" THEN NoStat
    ELSE IF f.how = "all" THEN [key |-> <<"all", ToString(f.n), s, sub>>, owner |-> f.n, name |-> s, sub |-> sub, tok |-> nd[f.n].tok]
    ELSE LET id == nd[f.n].stats[s]  c == sc[id] IN
      IF c.shared THEN [key |-> <<"one", ToString(id), "", "">>, owner |-> r, name |-> c.name, sub |-> "", tok |-> c.tok]
      ELSE [key |-> <<"own", ToString(id), s, sub>>, owner |-> r, name |-> s, sub |-> sub, tok |-> c.tok]

(* Slots: what the configuration puts there and what was loaded there.       *)
InSlot(nd, live, n, slot) == {c \in DOMAIN nd : nd[c].parent = n /\ nd[c].slot = slot /\ (nd[c].kind = "user" \/ (nd[c].kind = "anon" /\ c \in live))}
Max(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
