------------------------------ MODULE IrEquiv ------------------------------
(* Conformance of transformed programs: every case is a list of programs    *)
(* (the source program followed by what the compiler made of it) and a list *)
(* of argument tuples.  The machine of IrSem runs the source program to     *)
(* completion, remembers its outcome, then runs each transformed program;   *)
(* every outcome must equal the first.  A case may also carry `obs`, the    *)
(* outcome recorded from compiled code, which must equal the first too.     *)
EXTENDS IrSem, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)
Fuel  == 1500

VARIABLES c, a, v, m, base, n
vars == <<c, a, v, m, base, n>>

Case == Cases[c]
Prog(w) == Case.progs[w]
NoBase == [st |-> "none", out |-> <<>>, rv |-> <<>>]

Init == /\ c \in 1..Len(Cases)
        /\ a \in 1..Len(Cases[c].args)
        /\ v = 1
        /\ m = Start(Cases[c].progs[1].p, Cases[c].entry, Cases[c].args[a])
        /\ base = NoBase
        /\ n = 0

Running == m.st = "run"
OpClass == IF AtEnd(Prog(v).p, m) THEN "Unknown" ELSE Class(CurOp(Prog(v).p, m))

\* one action per class of operation, so that coverage shows what ran
Limit == IF v = 1 THEN Fuel ELSE 4 * Fuel
Exec(cl) == /\ Running /\ n < Limit /\ OpClass = cl
            /\ m' = StepOp(Prog(v).p, m) /\ n' = n + 1
            /\ UNCHANGED <<c, a, v, base>>
Const == Exec("Const")          IntArith == Exec("IntBin")     NegOp == Exec("Neg")
FltArith == Exec("FltBin")      Compare == Exec("Cmp")         Convert == Exec("Conv")
CastOp == Exec("Cast")          CallOp == Exec("Call")         CallIndOp == Exec("CallInd")
FuncConst == Exec("FuncConst")  ReturnOp == Exec("Return")     UnreachableOp == Exec("Unreachable")
BrOp == Exec("Br")              CondBrOp == Exec("CondBr")     IfOp == Exec("If")
LoopOp == Exec("Loop")          SwitchOp == Exec("Switch")     YieldOp == Exec("Yield")
ContinueOp == Exec("Continue")  BreakOp == Exec("Break")       StructOp == Exec("Struct")
VariantOp == Exec("Variant")    RefOp == Exec("Ref")           BoxOp == Exec("Box")
ListOp == Exec("List")          BytesOp == Exec("Bytes")
UnknownOp == Exec("Unknown")

\* the current program has finished: move on to the next transformed program
NextProg == /\ ~Running /\ v < Len(Case.progs)
            /\ (v > 1 => Outcome(m) = base)
            /\ base' = IF v = 1 THEN Outcome(m) ELSE base
            /\ v' = v + 1 /\ n' = 0
            \* an ill-typed program has no behaviour
            /\ m' = IF WellTyped(Prog(v + 1).p) THEN Start(Prog(v + 1).p, Case.entry, Case.args[a])
                    ELSE [Start(Prog(v + 1).p, Case.entry, Case.args[a]) EXCEPT !.st = "ill-typed"]
            /\ UNCHANGED <<c, a>>

Next == Const \/ IntArith \/ NegOp \/ FltArith \/ Compare \/ Convert \/ CastOp \/ CallOp \/ CallIndOp
        \/ FuncConst \/ ReturnOp \/ UnreachableOp \/ BrOp \/ CondBrOp \/ IfOp \/ LoopOp \/ SwitchOp
        \/ YieldOp \/ ContinueOp \/ BreakOp \/ StructOp \/ VariantOp \/ RefOp \/ BoxOp \/ ListOp \/ BytesOp \/ UnknownOp \/ NextProg
Spec == Init /\ [][Next]_vars

\* --- properties -----------------------------------------------------------
\* the source program is meaningful (guards the generator, not the code)
SourceOk == v = 1 => m.st # "stuck"
\* the transformed program does what the source program does
Preserved == (v > 1 /\ ~Running) => Outcome(m) = base
Terminates == v > 1 => n < Limit
\* compiled code did what the source program does
Bad == SelectSeq(IF v = 1 /\ ~Running /\ Len(Case.obs) >= a THEN Case.obs[a] ELSE <<>>, LAMBDA o : o.o # Outcome(m))
Observed == Bad = <<>>
\* transformed programs stay well typed
Typed == m.st # "ill-typed"

\* what an error trace shows of a state
Show == [c |-> c, a |-> a, v |-> v, n |-> n, how |-> Case.progs[v].how,
         got |-> Outcome(m), want |-> base,
         bad |-> IF Bad = <<>> THEN <<>> ELSE Bad[1]]
=============================================================================
