------------------------------- MODULE MCParams -------------------------------
(* Two parameter sets and two shared ones, kept as the implementation keeps  *)
(* them: a list of maps searched in order.  Scoped sets are filled map by    *)
(* map; OwnWins says that a later map does not replace what an earlier one   *)
(* gave.                                                                     *)
EXTENDS Params
CONSTANTS Keys, Scopes, Vals, MaxOps, OwnWins
MKeys == {<<"a">>, <<"a", "b">>, <<"b">>, <<"a", "a", "b">>}
MScopes == {<<"a">>, <<"a", "a">>}
VARIABLES p, g, d, n      \* the specification; d[i] the maps of set i
vars == <<p, g, d, n>>
Sets == {"S", "T"}

Maps(i) == <<d[i].own>> \o [j \in 1..Len(d[i].sh) |-> Shared(g, d[i].sh[j])]
RECURSIVE Search(_, _)
Search(m, k) == IF m = <<>> THEN "absent" ELSE IF k \in DOMAIN m[1] THEN m[1][k] ELSE Search(Tail(m), k)
RECURSIVE Fill(_, _, _)
Fill(m, scope, acc) ==
  IF m = <<>> THEN acc
  ELSE LET new == [k \in {Strip(x, scope) : x \in {y \in DOMAIN m[1] : Under(y, scope)}} |-> m[1][scope \o k]]
       IN Fill(Tail(m), scope, IF OwnWins THEN acc @@ new ELSE new @@ acc)

Init == p = <<New, New>> /\ g = [s \in Sets |-> None] /\ d = <<New, New>> /\ n = 0
Same == UNCHANGED <<g>>
Next == n < MaxOps /\ n' = n + 1 /\
  (\/ \E i \in 1..2, k \in Keys, v \in Vals, o \in BOOLEAN :
        /\ p' = [p EXCEPT ![i] = Insert(@, k, v, o)] /\ Same
        /\ d' = [d EXCEPT ![i].own = IF o \/ k \notin DOMAIN @ THEN (k :> v) @@ @ ELSE @]
   \/ \E s \in Sets, k \in Keys, v \in Vals : g' = [g EXCEPT ![s] = With(@, k, v)] /\ UNCHANGED <<p, d>>
   \/ \E i \in 1..2, s \in Sets :
        /\ s \notin Range(p[i].sh) /\ p' = [p EXCEPT ![i] = AddSet(@, s)] /\ Same
        /\ d' = [d EXCEPT ![i].sh = Append(@, s)]
   \/ /\ p' = <<Merge(p[1], p[2]), p[2]>> /\ Same
      /\ d' = [d EXCEPT ![1] = [own |-> @.own @@ d[2].own,
                                sh |-> @.sh \o SelectSeq(d[2].sh, LAMBDA s : s \notin Range(d[1].sh))]]
   \/ /\ p' = <<p[2], p[2]>> /\ d' = <<d[2], d[2]>> /\ Same
   \/ \E sc \in Scopes :
        /\ p' = <<Scope(g, p[2], sc), p[2]>> /\ Same
        /\ d' = [d EXCEPT ![1] = [own |-> Fill(Maps(2), sc, None), sh |-> <<>>]])
Spec == Init /\ [][Next]_vars

LookupExact == \A i \in 1..2, k \in Keys : LET v == View(g, p[i]) IN
                 Search(Maps(i), k) = IF k \in DOMAIN v THEN v[k] ELSE "absent"
OwnFirst == \A i \in 1..2 : \A k \in DOMAIN p[i].own : View(g, p[i])[k] = p[i].own[k]
ScopeExact == \A i \in 1..2, sc \in Scopes : LET v == View(g, Scope(g, p[i], sc)) IN
                /\ \A k \in DOMAIN v : v[k] = View(g, p[i])[sc \o k]
                /\ \A k \in DOMAIN View(g, p[i]) : Under(k, sc) => Strip(k, sc) \in DOMAIN v
(* a scope of a scope is the longer scope *)
ScopeComposes == \A i \in 1..2, a \in Scopes, b \in Scopes :
                   Scope(g, Scope(g, p[i], a), b) = Scope(g, p[i], a \o b)
(* what a set answers changes only by a call on it or on a shared set        *)
OthersKeep == [][/\ (p[2] = p'[2] /\ g = g') => View(g', p'[2]) = View(g, p[2])
                 /\ (p'[1] # p[1] => g' = g)]_vars
=============================================================================
