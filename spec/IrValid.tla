------------------------------ MODULE IrValid ------------------------------
(* What a well-formed module is, and what validation must say of one.       *)
(*                                                                          *)
(* A module is a forest of operations and regions.  A checker walks down    *)
(* it, one region at a time, carrying the values in scope: those of the     *)
(* region and of the regions around it, as far out as the function - a      *)
(* function starts from an empty scope.  It collects the operands that are  *)
(* out of scope.  Local rules of single operations, agreement of the        *)
(* recorded uses with the operands, and the arity of direct calls are       *)
(* stated over the same description.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, todo, stale, done
vars == <<c, todo, stale, done>>

K == Cases[c]
M == K.m
Rng(s) == {s[i] : i \in 1..Len(s)}
Op(o) == M.ops[o]
OpsOf(r) == UNION {Rng(b.ops) : b \in Rng(M.regs[r])}
Defs(r) == (UNION {Rng(b.args) : b \in Rng(M.regs[r])}) \cup (UNION {Rng(Op(o).r) : o \in OpsOf(r)})

IsFn(o) == Op(o).n \in {"func.func", "wasm.func"}

(* an item of work: a region, the function it belongs to (0: none) and what *)
(* is in scope around it                                                    *)
Inner(w) ==
    UNION {
        (IF IsFn(o) THEN {[r |-> g, f |-> o, vis |-> {}] : g \in Rng(Op(o).rg)} ELSE {})
        \cup
        (IF w.f # 0 THEN {[r |-> g, f |-> w.f, vis |-> w.vis \cup Defs(w.r)] : g \in Rng(Op(o).rg)}
                    ELSE {[r |-> g, f |-> 0, vis |-> {}] : g \in Rng(Op(o).rg)})
        : o \in OpsOf(w.r)}
Found(w) ==
    IF w.f = 0 THEN {}
    ELSE UNION {{<<w.f, o, i>> : i \in {i \in 1..Len(Op(o).o) : Op(o).o[i] \notin (w.vis \cup Defs(w.r))}} : o \in OpsOf(w.r)}

Init == /\ c \in 1..Len(Cases) /\ stale = {} /\ done = FALSE
        /\ todo = IF Cases[c].body = 0 THEN {} ELSE {[r |-> Cases[c].body, f |-> 0, vis |-> {}]}
Descend == /\ todo # {}
           /\ todo' = TLCEval(UNION {Inner(w) : w \in todo})
           /\ stale' = TLCEval(stale \cup UNION {Found(w) : w \in todo})
           /\ UNCHANGED <<c, done>>
Finish == todo = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, todo, stale>>
Next == Descend \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------- scope -------------------------------- *)
Reported == {<<Op(s[1]).sym, Op(s[2]).n, s[3]>> : s \in stale}
ScopeOk == stale = {}
Scope == done => /\ Rng(K.got.stale) = Reported
                 /\ (K.got.stale = <<>>) = ScopeOk

(* -------------------------------- uses -------------------------------- *)
RECURSIVE Under(_)
Under(r) == OpsOf(r) \cup UNION {UNION {Under(g) : g \in Rng(Op(o).rg)} : o \in OpsOf(r)}
RECURSIVE RegsUnder(_)
RegsUnder(r) == {r} \cup UNION {UNION {RegsUnder(g) : g \in Rng(Op(o).rg)} : o \in OpsOf(r)}
All == IF K.body = 0 THEN {} ELSE Under(K.body)
Known == IF K.body = 0 THEN {} ELSE UNION {Defs(r) : r \in RegsUnder(K.body)}
Operands == UNION {{<<Op(o).o[i], o, i>> : i \in 1..Len(Op(o).o)} : o \in All}
Recorded(v) == {<<v, u[1], u[2]>> : u \in Rng(M.uses[v])}
UsesOk == LET vs == Known \cup {p[1] : p \in Operands}
          IN Operands = UNION {Recorded(v) : v \in vs}
Uses == done => (K.got.uses = 1) = UsesOk

(* --------------------------- operation rules -------------------------- *)
CmpfOk(o) == Op(o).pred \in {"oeq", "une", "olt", "ole", "ogt", "oge"}
TailTerms == {"func.tail_call", "func.tail_call_indirect", "func.unreachable",
              "ability.perform", "ability.handle_dispatch", "scf.if", "scf.switch"}
Never(o) == Op(o).rt = <<"core.never">>
ArmOk(o, g) ==
    /\ Len(M.regs[g]) = 1
    /\ LET ops == M.regs[g][1].ops
       IN /\ ops # <<>>
          /\ LET t == ops[Len(ops)]
             IN IF Op(t).n = "scf.yield" THEN Len(Op(t).o) = Len(Op(o).r)
                ELSE Never(o) /\ Op(t).n \in TailTerms
IfOk(o) == Len(Op(o).o) = 1 /\ Len(Op(o).rg) = 2 /\ \A g \in Rng(Op(o).rg) : ArmOk(o, g)
IndirectOk(o) ==
    /\ Op(o).r = <<>>
    /\ Op(o).o # <<>>
    /\ LET t == Op(o).ot[1]
           clo == t.n = "closure.closure"
       IN /\ clo => Len(t.p) = 1
          /\ LET f == IF clo THEN t.p[1] ELSE t
             IN /\ f.n = "core.func" /\ f.p # <<>>
                /\ f.p[1].n = "core.never"
                /\ Len(Op(o).o) = Len(f.p)
                /\ \A i \in 2..Len(f.p) : f.p[i].id = Op(o).ot[i].id
OpOk(o) == CASE Op(o).n = "arith.cmpf" -> CmpfOk(o)
             [] Op(o).n = "scf.if" -> IfOk(o)
             [] Op(o).n = "scf.loop" -> Len(Op(o).r) <= 1
             [] Op(o).n = "scf.switch" -> Op(o).r = <<>>
             [] Op(o).n = "func.tail_call_indirect" -> IndirectOk(o)
             [] OTHER -> TRUE
OpsOk == \A o \in All : OpOk(o)
Local == done => (K.got.ops = 1) = OpsOk
Whole == done => (K.got.all = 1) = (ScopeOk /\ UsesOk /\ OpsOk)

(* ------------------------------- arity -------------------------------- *)
Top == IF K.body = 0 THEN {} ELSE OpsOf(K.body)
Fns == {o \in Top : Op(o).n \in {"func.func", "wasm.func", "clif.func"}}
Typed == {o \in Fns : Op(o).np >= 0}
Calls == {o \in UNION {UNION {Under(g) : g \in Rng(Op(f).rg)} : f \in Fns} : Op(o).n \in {"func.call", "func.tail_call"}}
Misfits == {o \in Calls : \E f \in Typed : Op(f).sym = Op(o).callee /\ Op(f).np # Len(Op(o).o)}
Arity == done => /\ Len(K.got.warn) = Cardinality(Misfits)
                 /\ Rng(K.got.warn) \subseteq {"WARNING"}

Show == [t |-> c, i |-> 0, step |-> K.id,
         diff |-> [expect |-> Reported, uses |-> UsesOk, badops |-> {o \in All : ~OpOk(o)}, misfits |-> Misfits, got |-> K.got]]
=============================================================================
