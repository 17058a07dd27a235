------------------------------- MODULE IrText -------------------------------
(* The textual form of a module.                                            *)
(*                                                                          *)
(* A module is a sequence of entries in reading order: operations (name,    *)
(* operands, result types, attributes, successors, regions) and blocks      *)
(* (arguments and their types), each value and block named by the order of  *)
(* its definition.  Printing writes a module down and forgets it; parsing   *)
(* brings a module into being from what was written.  Whatever number of    *)
(* times a module is written and read, it stays the same module.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, i, mem, page
\* mem: the module in memory (<<>>: none); page: the module the current text stands for
vars == <<c, i, mem, page>>

K == Cases[c]
None == <<>>
Step == K.steps[i + 1]
Init == c \in 1..Len(Cases) /\ i = 0 /\ mem = Cases[c].src /\ page = None
Write == /\ i < Len(K.steps) /\ Step.a = "print" /\ mem # None
         /\ page' = mem /\ mem' = None /\ i' = i + 1 /\ c' = c
ReadBack == /\ i < Len(K.steps) /\ Step.a = "parse" /\ page # None
         /\ mem' = page /\ UNCHANGED page /\ i' = i + 1 /\ c' = c
Next == Write \/ ReadBack
Spec == Init /\ [][Next]_vars

Last == K.steps[i]
Accepted == i > 0 => Last.ok = 1                             \* neither direction fails
SameModule == (i > 0 /\ Last.a = "parse" /\ Last.ok = 1) => Last.g = mem

(* ------------------- what a module in this language is ------------------- *)
Ops(g) == {j \in 1..Len(g) : g[j].k = "op"}
Blocks(g) == {j \in 1..Len(g) : g[j].k = "block"}
Defs(e) == IF e.k = "op" THEN {e.r[x] : x \in 1..Len(e.r)} ELSE {e.args[x] : x \in 1..Len(e.args)}
Meaningful(g) ==
  /\ \A j \in Ops(g) : Len(g[j].r) = Len(g[j].t)
  /\ \A j \in Blocks(g) : Len(g[j].args) = Len(g[j].t)
  /\ \A j \in Ops(g) : \A x \in 1..Len(g[j].o) : \E k \in 1..(j - 1) : g[j].o[x] \in Defs(g[k])
  /\ \A j \in Ops(g) : \A x \in 1..Len(g[j].s) : \E k \in Blocks(g) : g[k].id = g[j].s[x]
NoCrash == i = 0 => K.crashes = <<>>                        \* on damaged text
SourceOk == i = 0 => Meaningful(mem)

Diff == IF i = 0 \/ Last.a = "print" \/ Last.ok = 0 THEN <<>>
        ELSE IF Len(Last.g) # Len(mem) THEN <<"length", Len(mem), Len(Last.g)>>
        ELSE LET j == CHOOSE j \in 1..Len(mem) : mem[j] # Last.g[j] /\ \A k \in 1..(j - 1) : mem[k] = Last.g[k] IN <<mem[j], Last.g[j]>>
Show == [t |-> c, i |-> i, step |-> IF i = 0 THEN "source" ELSE Last.a,
         diff |-> IF i = 0 THEN ToString(K.crashes) ELSE IF i > 0 /\ Last.ok = 0 THEN Last.text ELSE IF i > 0 /\ Last.a = "parse" /\ Last.g # mem THEN ToString(Diff) ELSE ""]
=============================================================================
