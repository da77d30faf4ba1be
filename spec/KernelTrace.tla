---------------------------- MODULE KernelTrace ----------------------------
(* Validates recorded runs of the real simulator against Kernel.            *)
(* The input file holds a list of traces [g, l]; a line is                   *)
(*   [x |-> "se"|"ev"|"ck"|"en", c, t, ...].                                 *)
EXTENDS Kernel, Json, IOUtils

Data == JsonDeserialize(IOEnv.VF_TRACES)

VARIABLES tr, l, S
vars == <<tr, l, S>>

G == Data[tr].g
L == Data[tr].l
R == L[l]

Init == /\ tr \in 1..Len(Data)
        /\ l = 1
        /\ S = InitState(Data[tr].g)

Reject(why) == PrintT(<<"REJECT", tr, l, why>>) /\ l' = 0 /\ UNCHANGED <<tr, S>>

(* A handler ran: its effects after the specified step of the core.         *)
Finish(why, base, h) ==
  IF why # "" THEN Reject(why)
  ELSE LET z == Ops(G, base, R.c, R.t, h, R.o, 1)
       IN  IF z[2] # 0 THEN Reject(<<"wrong result of call", R.o[z[2]]>>)
           ELSE S' = z[1] /\ l' = l + 1 /\ UNCHANGED tr

Setup == R.x = "se" /\ Finish(IF R.t # 0 \/ S.now # 0 THEN "setup after time zero" ELSE "", S, 0)
Deliver == R.x = "ev" /\ LET why == DeliverWhy(G, S, R.c, R.t, R.p + 1, R.v)
                         IN  Finish(why, IF why = "" THEN AfterDeliver(S, R.c, R.t, R.p + 1) ELSE S, 0)
Tick == R.x = "ck" /\ LET why == TickWhy(G, S, R.c, R.t, R.h + 1, R.cy)
                      IN  Finish(why, IF why = "" THEN AfterTick(G, S, R.c, R.t, R.h + 1, 0) ELSE S, R.h + 1)
(* a handler that asked to be removed: the effect comes after its calls     *)
TickW == R.x = "w" /\ S' = Deactivate(S, R.c, R.h + 1) /\ l' = l + 1 /\ UNCHANGED tr
End == R.x = "en" /\ LET why == EndWhy(G, S, R.t)
                     IN  IF why # "" THEN Reject(why)
                         ELSE l' = l + 1 /\ UNCHANGED <<tr, S>>
Bad == R.x = "bad" /\ Reject(R.why)

Next == \/ l >= 1 /\ l <= Len(L) /\ (Setup \/ Deliver \/ Tick \/ TickW \/ End \/ Bad)
        \/ l = Len(L) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ l' = -1 /\ UNCHANGED <<tr, S>>

Spec == Init /\ [][Next]_vars
=============================================================================
