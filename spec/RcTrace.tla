------------------------------ MODULE RcTrace ------------------------------
(* The heap as natively compiled programs see it.  The driver records every *)
(* allocation and every release of memory of one run of one program; this   *)
(* automaton replays the record.  An object is live from its allocation to  *)
(* its release; memory is released once, with the size it was allocated     *)
(* with (0 = size unknown to the code), and, in the cases whose references  *)
(* are all managed, nothing is live when the program has returned.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, a, o, i, live, seen, bad
vars == <<c, a, o, i, live, seen, bad>>

Obs == Cases[c].obs[a][o]
Ev == Obs.ev

Init == /\ c \in 1..Len(Cases)
        /\ a \in 1..Len(Cases[c].obs)
        /\ o \in 1..Len(Cases[c].obs[a])
        /\ i = 0 /\ live = {} /\ seen = {} /\ bad = "ok"

E == Ev[i + 1]
More == i < Len(Ev) /\ bad = "ok"
Adv == i' = i + 1 /\ UNCHANGED <<c, a, o>>

Alloc == /\ More /\ E[1] = 1
         /\ live' = live \cup {<<E[2], E[3]>>} /\ seen' = seen \cup {E[2]}
         /\ bad' = IF E[2] \in seen THEN "identity reused" ELSE "ok"
         /\ Adv
\* <<2, object, size passed, size allocated>>
Free == /\ More /\ E[1] = 2
        /\ LET h == {x \in live : x[1] = E[2]}
           IN /\ bad' = IF h = {} THEN (IF E[2] \in seen THEN "released twice" ELSE "released before it existed")
                        ELSE IF E[3] # 0 /\ <<E[2], E[3]>> \notin live THEN "released with another size" ELSE "ok"
              /\ live' = live \ h
        /\ UNCHANGED seen /\ Adv
\* anything else: not the start of an object, or memory that is not live
BadFree == /\ More /\ E[1] \notin {1, 2}
           /\ bad' = "released something that is not a live object"
           /\ UNCHANGED <<live, seen>> /\ Adv
Next == Alloc \/ Free \/ BadFree
Spec == Init /\ [][Next]_vars

ReleasedOnce == bad = "ok"
Done == i = Len(Ev) /\ bad = "ok"
NoLeak == (Done /\ Cases[c].managed = 1 /\ Obs.o.st = "done") => live = {}
TypeOK == i \in 0..Len(Ev)

Show == [c |-> c, a |-> a, i |-> i, bad |-> bad, live |-> live, how |-> Obs.how, got |-> Obs.o.st]
=============================================================================
