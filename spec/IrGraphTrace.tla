---------------------------- MODULE IrGraphTrace ----------------------------
(* Histories recorded from the library, checked step by step: after every   *)
(* call the observed graph - contents, parent links, definitions and use    *)
(* lists - is the one IrGraph prescribes, and a call is refused exactly     *)
(* when IrGraph refuses it.                                                 *)
EXTENDS IrGraph, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES t, i, S
vars == <<t, i, S>>

Steps == Traces[t].steps
Init == t \in 1..Len(Traces) /\ i = 0 /\ S = Empty
Step(a) == /\ i < Len(Steps) /\ S # Refused /\ Steps[i + 1].a = a
           /\ S' = TLCEval(Apply(S, Steps[i + 1])) /\ i' = i + 1 /\ t' = t
Create == Step("create_op") \/ Step("create_block") \/ Step("create_region")
Place == Step("push_op") \/ Step("insert_op_before") \/ Step("split_block") \/ Step("inline_blocks")
Unplace == Step("remove_op_from_block") \/ Step("detach_op") \/ Step("detach_region")
Dispose == Step("remove_op") \/ Step("erase_op")
Operands == Step("set_operand") \/ Step("push_operand") \/ Step("remove_operand") \/ Step("rauw")
Types == Step("set_result_type") \/ Step("set_arg_type") \/ Step("add_arg") \/ Step("prepend_arg")
Clone == Step("clone_op") \/ Step("clone_region")
Next == Create \/ Place \/ Unplace \/ Dispose \/ Operands \/ Types \/ Clone
Spec == Init /\ [][Next]_vars

Obs == Steps[i].st
\* uses as the code lists them, each exactly once, in a fixed order
UseList(v) == SetToSortSeq(UsesOf(S, v), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
ValView(v) == IF S.vals[v].dead = 1 THEN [dead |-> 1]
              ELSE [dead |-> 0, k |-> S.vals[v].k, at |-> S.vals[v].at, i |-> S.vals[v].i, ty |-> S.vals[v].ty,
                    uses |-> UseList(v), has |-> IF UsesOf(S, v) = {} THEN 0 ELSE 1]
Here == i > 0 /\ S # Refused
Refusal == i > 0 => (Steps[i].ok = 0) <=> (S = Refused)
OpsMatch == (Here /\ Steps[i].ok = 1) => S.ops = Obs.ops
BlocksMatch == (Here /\ Steps[i].ok = 1) => S.blocks = Obs.blocks
RegionsMatch == (Here /\ Steps[i].ok = 1) => S.regs = Obs.regs
ValuesMatch == (Here /\ Steps[i].ok = 1) => (Len(S.vals) = Len(Obs.vals) /\ \A v \in 1..Len(S.vals) : ValView(v) = Obs.vals[v])
\* the specification itself keeps the graph consistent
Integrity == Here => (ParentsMirror(S) /\ DefsMirror(S) /\ NoDangling(S))

Show == [t |-> t, i |-> i, step |-> IF i = 0 THEN "init" ELSE Steps[i].a,
         diff |-> IF ~Here \/ Steps[i].ok = 0 THEN "refusal"
                  ELSE IF S.ops # Obs.ops THEN ToString({<<S.ops[o], Obs.ops[o]>> : o \in {o \in 1..Len(S.ops) : Len(Obs.ops) >= o /\ S.ops[o] # Obs.ops[o]}})
                  ELSE IF S.blocks # Obs.blocks THEN ToString({<<S.blocks[o], Obs.blocks[o]>> : o \in {o \in 1..Len(S.blocks) : Len(Obs.blocks) >= o /\ S.blocks[o] # Obs.blocks[o]}})
                  ELSE IF S.regs # Obs.regs THEN ToString({<<S.regs[o], Obs.regs[o]>> : o \in {o \in 1..Len(S.regs) : Len(Obs.regs) >= o /\ S.regs[o] # Obs.regs[o]}})
                  ELSE "values"]
=============================================================================
