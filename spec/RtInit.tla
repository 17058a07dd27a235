------------------------------- MODULE RtInit -------------------------------
(* The initialization protocol, every interleaving: one thread wins the      *)
(* exchange and creates the key, those that meet it at work wait, those that *)
(* come later pass.  Every visible step must be one Runtime!Threads allows,  *)
(* nobody is stuck, and each thread draws distinct tags from its own state.  *)
EXTENDS Runtime

CONSTANTS Th, MaxTag
Unset == -1
Busy == -2
VARIABLES pc, cell, slot, m
vars == <<pc, cell, slot, m>>
Init == /\ pc = [x \in Th |-> "start"] /\ cell = Unset
        /\ slot = [x \in Th |-> -1] /\ m = {Start(FALSE)}
See(e) == m' = UNION {Threads(x, e) : x \in m}
Exchange(x) ==
    /\ pc[x] = "start" /\ UNCHANGED <<slot, m>>
    /\ IF cell = Unset THEN cell' = Busy /\ pc' = [pc EXCEPT ![x] = "create"]
       ELSE cell' = cell /\ pc' = [pc EXCEPT ![x] = IF cell = Busy THEN "wait" ELSE "return"]
Create(x) == pc[x] = "create" /\ See(<<"key">>) /\ pc' = [pc EXCEPT ![x] = "created"] /\ UNCHANGED <<cell, slot>>
Created(x) == pc[x] = "created" /\ See(<<"made">>) /\ pc' = [pc EXCEPT ![x] = "publish"] /\ UNCHANGED <<cell, slot>>
Publish(x) == pc[x] = "publish" /\ cell' = 7 /\ pc' = [pc EXCEPT ![x] = "return"] /\ UNCHANGED <<slot, m>>
Wait(x) == pc[x] = "wait" /\ cell # Busy /\ pc' = [pc EXCEPT ![x] = "return"] /\ UNCHANGED <<cell, slot, m>>
Return(x) == pc[x] = "return" /\ See(<<"up", x>>) /\ pc' = [pc EXCEPT ![x] = "up"] /\ UNCHANGED <<cell, slot>>
Tag(x) == /\ pc[x] = "up" /\ slot[x] < MaxTag /\ See(<<"tag", x, slot[x] + 1>>)
          /\ slot' = [slot EXCEPT ![x] = @ + 1] /\ UNCHANGED <<pc, cell>>
Again(x) == pc[x] = "up" /\ pc' = [pc EXCEPT ![x] = "start"] /\ UNCHANGED <<cell, slot, m>>
Next == \E x \in Th : Exchange(x) \/ Create(x) \/ Created(x) \/ Publish(x) \/ Wait(x) \/ Return(x) \/ Tag(x) \/ Again(x)
Spec == Init /\ [][Next]_vars

Allowed == m # {}
OneWinner == Cardinality({x \in Th : pc[x] \in {"create", "created", "publish"}}) <= 1
ReadyBeforeUse == \A x \in Th : pc[x] \in {"return", "up"} => cell >= 0
NotStuck == \E x \in Th : ENABLED (Exchange(x) \/ Create(x) \/ Created(x) \/ Publish(x) \/ Return(x) \/ Tag(x) \/ Again(x))
=============================================================================
