------------------------------- MODULE Reject -------------------------------
(* Conversions that may refuse a module: a refused module stays what it was. *)
(* State: the module (numbered texts, with the type aliases in force). A     *)
(* recorded history is a sequence of calls: what was answered and which      *)
(* module was seen before and after.                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES t, i, module, seen
vars == <<t, i, module, seen>>

Calls == Traces[t].calls
Init == /\ t \in 1..Len(Traces) /\ i = 0
        /\ module = Traces[t].calls[1].before
        /\ seen = module

Accept == /\ i < Len(Calls) /\ Calls[i + 1].st = "ok" /\ Calls[i + 1].before = module
          /\ module' = Calls[i + 1].after
          /\ seen' = Calls[i + 1].after /\ i' = i + 1 /\ UNCHANGED t
Refuse == /\ i < Len(Calls) /\ Calls[i + 1].st = "rejected" /\ Calls[i + 1].before = module
          /\ module' = module
          /\ seen' = Calls[i + 1].after /\ i' = i + 1 /\ UNCHANGED t
Crash ==  /\ i < Len(Calls) /\ Calls[i + 1].st = "panic"
          /\ seen' = 0 /\ i' = i + 1 /\ UNCHANGED <<t, module>>
Next == Accept \/ Refuse \/ Crash
Spec == Init /\ [][Next]_vars

\* what is there is what the calls answered so far left there
Unchanged == seen = module
\* the same module gets the same answer again
Deterministic == \A a, b \in 1..i : Calls[a].before = Calls[b].before => Calls[a].st = Calls[b].st

Show == [t |-> t, i |-> i, step |-> IF i = 0 THEN "start" ELSE Calls[i].what, diff |-> IF i = 0 THEN "" ELSE Calls[i].st]
=============================================================================
