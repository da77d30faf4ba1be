--------------------------------- MODULE Pool ---------------------------------
(* The memory pool: the blocks handed out and not yet returned, each an       *)
(* interval of addresses.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
NoBlocks == [live |-> {}]
Overlap(a, b) == a.s < b.e /\ b.s < a.e
Fits(p, b) == b.s < b.e /\ \A x \in p.live : ~Overlap(x, b) /\ x.id # b.id
Out(p, b) == [p EXCEPT !.live = @ \cup {b}]
Back(p, id) == [p EXCEPT !.live = {x \in @ : x.id # id}]
Has(p, id) == \E x \in p.live : x.id = id
===============================================================================
