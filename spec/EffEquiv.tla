------------------------------ MODULE EffEquiv ------------------------------
(* Conformance of what the compiler makes of effectful, higher-order        *)
(* programs: as IrEquiv, over the machine of EffSem.                        *)
EXTENDS EffSem, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)
Fuel  == 1500

VARIABLES c, a, v, m, base, n
vars == <<c, a, v, m, base, n>>

Case == Cases[c]
Prog(w) == Case.progs[w]
NoBase == [st |-> "none", out |-> <<>>, rv |-> <<>>]

Init == /\ c \in 1..Len(Cases)
        /\ a \in 1..Len(Cases[c].args)
        /\ v = 1
        /\ m = StartE(Cases[c].progs[1].p, Cases[c].entry, Cases[c].args[a], FALSE)
        /\ base = NoBase
        /\ n = 0

Running == m.st = "run"
OpClass == IF AtEnd(Prog(v).p, m) THEN "Unknown" ELSE EClass(CurOp(Prog(v).p, m))
Limit == IF v = 1 THEN Fuel ELSE 8 * Fuel
Exec(S) == /\ Running /\ n < Limit /\ OpClass \in S
           /\ m' = StepE(Prog(v).p, m) /\ n' = n + 1
           /\ UNCHANGED <<c, a, v, base>>
CallOp == Exec({"ECall"})       CallIndOp == Exec({"ECallInd"})  LambdaOp == Exec({"Lambda"})
NewOp == Exec({"ClosureNew"})   FuncRefOp == Exec({"FuncRef"})   HandleOp == Exec({"Handle"})
PerformOp == Exec({"Perform"})  ResumeOp == Exec({"Resume"})     YieldOp == Exec({"TcYield"})
DispatchOp == Exec({"Dispatch"}) AbilityCallOp == Exec({"AbilityOp"}) ReturnOp == Exec({"Return"})
ExtendOp == Exec({"Extend"})    EffectOps == Exec({"EffectOp"})
Special == {"ECall", "ECallInd", "Lambda", "ClosureNew", "FuncRef", "Handle", "Perform", "Resume", "TcYield",
            "Dispatch", "AbilityOp", "Return", "Extend", "EffectOp"}
PlainOp == /\ Running /\ n < Limit /\ ~(OpClass \in Special)
           /\ m' = StepE(Prog(v).p, m) /\ n' = n + 1
           /\ UNCHANGED <<c, a, v, base>>
NextProg == /\ ~Running /\ v < Len(Case.progs)
            /\ (v > 1 => Outcome(m) = base)
            /\ base' = IF v = 1 THEN Outcome(m) ELSE base
            /\ v' = v + 1 /\ n' = 0
            /\ m' = StartE(Prog(v + 1).p, Case.entry, Case.args[a], TRUE)
            /\ UNCHANGED <<c, a>>
Next == CallOp \/ CallIndOp \/ LambdaOp \/ NewOp \/ FuncRefOp \/ HandleOp \/ PerformOp \/ ResumeOp \/ YieldOp
        \/ DispatchOp \/ AbilityCallOp \/ ReturnOp \/ ExtendOp \/ EffectOps \/ PlainOp \/ NextProg
Spec == Init /\ [][Next]_vars

SourceOk == v = 1 => m.st # "stuck"
Preserved == (v > 1 /\ ~Running) => Outcome(m) = base
Terminates == v > 1 => n < Limit
Bad == SelectSeq(IF v = 1 /\ ~Running /\ Len(Case.obs) >= a THEN Case.obs[a] ELSE <<>>, LAMBDA o : o.o # Outcome(m))
Observed == Bad = <<>>

Show == [c |-> c, a |-> a, v |-> v, n |-> n, how |-> Case.progs[v].how,
         got |-> Outcome(m), want |-> base,
         bad |-> IF Bad = <<>> THEN <<>> ELSE Bad[1]]
=============================================================================
