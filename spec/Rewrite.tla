------------------------------ MODULE Rewrite ------------------------------
(* Dialect conversion: sweeping rewrite patterns over a module until        *)
(* nothing changes, under a target that says which operations are legal.    *)
(*                                                                          *)
(* The state is the module (operations, blocks, values with types).  One    *)
(* step is one sweep: blocks in order, operations as they were when the     *)
(* block was entered; what an operation contains before the operation       *)
(* itself; recursively legal operations are left alone entirely, legal ones *)
(* are not rewritten.  With automatic type conversion, block arguments take *)
(* their converted type and operands of operations that are not legal are   *)
(* cast.  The first pattern that really does something wins.                *)
(*                                                                          *)
(* Every case carries a module, patterns, target and converter, and what    *)
(* the real framework made of them.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)
CAST == "core.unrealized_conversion_cast"

VARIABLES c, ir, it, ns
vars == <<c, ir, it, ns>>
K == Cases[c]
C == K.conf
Rng(s) == {s[i] : i \in 1..Len(s)}
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Dialect(k) == CASE k \in {"a.x", "a.y", "a.z"} -> "a" [] k \in {"b.x", "b.y", "b.z"} -> "b"
                [] k \in {"c.x", "c.y", "c.z"} -> "c" [] k = CAST -> "core" [] k = "func.func" -> "func" [] OTHER -> "m"

(* ------------------------------ legality ------------------------------ *)
(* op rules before dialect rules before the fallback; in a tier, the        *)
(* dynamic rule first, unless it defers                                     *)
Legality(o) ==
    LET k == o.k
        d == Dialect(k)
    IN IF Has(C.do, k) /\ o.d[1] # "defer" THEN o.d[1]
       ELSE IF Has(C.lo, k) THEN "legal"
       ELSE IF Has(C.io, k) THEN "illegal"
       ELSE IF Has(C.dd, d) /\ o.d[2] # "defer" THEN o.d[2]
       ELSE IF Has(C.ld, d) THEN "legal"
       ELSE IF Has(C.id, d) THEN "illegal"
       ELSE IF C.du = 1 /\ o.d[3] # "defer" THEN o.d[3]
       ELSE "unknown"
Sealed(o) == \/ Has(C.rd, o.k) /\ o.d[1] = "legal"
             \/ Has(C.rl, o.k) /\ Legality(o) = "legal"

(* ------------------------------- types -------------------------------- *)
RECURSIVE ConvBy(_, _)
ConvBy(ms, t) == IF ms = <<>> THEN 0
                 ELSE LET hit == {p \in Rng(Head(ms)) : p[1] = t}
                      IN IF hit # {} THEN (CHOOSE p \in hit : TRUE)[2] ELSE ConvBy(Tail(ms), t)
Conv(t) == LET r == ConvBy(C.conv, t) IN IF r = 0 THEN t ELSE r
TypeOf(m, v) == IF v[1] = 0 THEN m.ops[v[2]].rt[v[3]] ELSE m.blocks[v[2]].args[v[3]]

(* ------------------------------- edits -------------------------------- *)
Fresh(k, o, rt) == [k |-> k, d |-> <<"defer", "defer", "defer">>, o |-> o, rt |-> rt, regs |-> <<>>, sig |-> <<>>, b |-> 0, keep |-> 0]
Add(m, op) == [m EXCEPT !.ops = Append(@, op)]
PutBefore(m, n, o) ==    \* operation n goes right before operation o
    LET b == m.ops[o].b
        l == m.blocks[b].ops
        at == CHOOSE i \in 1..Len(l) : l[i] = o
    IN [m EXCEPT !.blocks[b].ops = SubSeq(l, 1, at - 1) \o <<n>> \o SubSeq(l, at, Len(l)), !.ops[n].b = b]
PutLast(m, n, b) == [m EXCEPT !.blocks[b].ops = Append(@, n), !.ops[n].b = b]
TakeOut(m, o) == [m EXCEPT !.blocks[m.ops[o].b].ops = SelectSeq(@, LAMBDA x : x # o), !.ops[o].b = 0]
Subst(m, v, w) == [m EXCEPT !.ops = [i \in 1..Len(m.ops) |-> [m.ops[i] EXCEPT !.o = [j \in 1..Len(@) |-> IF @[j] = v THEN w ELSE @[j]]]]]
RECURSIVE SubstAll(_, _, _, _)
SubstAll(m, o, ws, i) == IF i > Len(ws) THEN m ELSE SubstAll(Subst(m, <<0, o, i>>, ws[i]), o, ws, i + 1)

(* one new operation in front of o, for each prefix *)
RECURSIVE Prefix(_, _, _)
Prefix(m, o, n) == IF n = 0 THEN m
                   ELSE LET m1 == Add(m, Fresh("c.z", SubSeq(m.ops[o].o, 1, IF m.ops[o].o = <<>> THEN 0 ELSE 1), <<>>))
                        IN Prefix(PutBefore(m1, Len(m1.ops), o), o, n - 1)
RECURSIVE AddTop(_, _, _, _)
AddTop(m, os, n, b) == IF n = 0 \/ b = 0 THEN m
                       ELSE LET m1 == Add(m, Fresh("c.z", os, <<>>)) IN AddTop(PutLast(m1, Len(m1.ops), b), os, n - 1, b)

ModBlock == IF K.scope = 0 THEN K.top ELSE 0

(* a pattern on an operation: <<did it change anything, module>> *)
SigOf(o) == [i \in 1..Len(o.sig) |-> Conv(o.sig[i])]
SigApplies(m, o) ==
    LET op == m.ops[o]
        new == SigOf(op)
    IN /\ op.k = "func.func" /\ new # op.sig
       /\ (Tail(new) # Tail(op.sig) /\ op.regs # <<>>) => Len(m.blocks[op.regs[1][1]].args) = Len(new) - 1
Resign(m, o) ==
    LET op == m.ops[o]
        new == SigOf(op)
        m1 == IF Tail(new) # Tail(op.sig) /\ op.regs # <<>> THEN [m EXCEPT !.blocks[op.regs[1][1]].args = Tail(new)] ELSE m
        m2 == Add([m1 EXCEPT !.ops[o].regs = <<>>], [op EXCEPT !.sig = new, !.b = 0])
    IN TakeOut(PutBefore(m2, Len(m2.ops), o), o)
Applies(m, o, p) ==
    /\ m.ops[o].k = p.k
    /\ CASE p.act = "rename" -> TRUE
         [] p.act = "erase" -> ~(m.ops[o].o = <<>> /\ m.ops[o].rt # <<>>)
         [] p.act \in {"insert", "addmod"} -> p.pre > 0
         [] p.act = "sig" -> SigApplies(m, o)
         [] OTHER -> FALSE
Rewritten(m, o, p) ==
    LET op == m.ops[o]
        m1 == IF p.act = "addmod" THEN m ELSE Prefix(m, o, p.pre)
    IN CASE p.act = "rename" ->
                LET m2 == Add(m1, Fresh(p.to, op.o, op.rt))
                    n == Len(m2.ops)
                    m3 == SubstAll(m2, o, [i \in 1..Len(op.rt) |-> <<0, n, i>>], 1)
                IN TakeOut(PutBefore(m3, n, o), o)
         [] p.act = "erase" -> TakeOut(SubstAll(m1, o, [i \in 1..Len(op.rt) |-> op.o[((i - 1) % Len(op.o)) + 1]], 1), o)
         [] p.act = "insert" -> m1
         [] p.act = "addmod" -> AddTop(m1, <<>>, p.pre, ModBlock)
         [] p.act = "sig" -> Resign(m, o)

(* ------------------------------- a sweep ------------------------------ *)
RECURSIVE CastFrom(_, _, _, _)
CastFrom(a, o, os, i) ==
    IF i > Len(os) THEN a
    ELSE LET t == TypeOf(a.m, os[i])
         IN IF Conv(t) = t THEN CastFrom(a, o, os, i + 1)
            ELSE LET m1 == Add(a.m, Fresh(CAST, <<os[i]>>, <<Conv(t)>>))
                     n == Len(m1.ops)
                     m2 == [PutBefore(m1, n, o) EXCEPT !.ops[o].o[i] = <<0, n, 1>>]
                 IN CastFrom([m |-> m2, n |-> a.n + 1], o, os, i + 1)
Casts(a, o) == IF C.auto = 1 /\ a.m.ops[o].k # CAST THEN CastFrom(a, o, a.m.ops[o].o, 1) ELSE a
Patterns(a, o) ==
    LET hits == {i \in 1..Len(C.pats) : Applies(a.m, o, C.pats[i])}
    IN IF hits = {} THEN a
       ELSE [m |-> Rewritten(a.m, o, C.pats[CHOOSE i \in hits : \A j \in hits : i <= j]), n |-> a.n + 1]
ArgsOf(a, b) ==
    IF C.auto = 0 THEN a
    ELSE LET old == a.m.blocks[b].args
         IN [m |-> [a.m EXCEPT !.blocks[b].args = [i \in 1..Len(old) |-> Conv(old[i])]],
             n |-> a.n + Cardinality({i \in 1..Len(old) : Conv(old[i]) # old[i]})]
RECURSIVE SweepOps(_, _, _), SweepBlocks(_, _), SweepRegions(_, _)
SweepOps(a, os, b) ==
    IF os = <<>> THEN a
    ELSE LET o == Head(os)
         IN IF a.m.ops[o].b # b \/ Sealed(a.m.ops[o]) THEN SweepOps(a, Tail(os), b)
            ELSE LET in == TLCEval(SweepRegions(a, a.m.ops[o].regs))
                     done == IF Legality(in.m.ops[o]) = "legal" THEN in ELSE TLCEval(Patterns(TLCEval(Casts(in, o)), o))
                 IN SweepOps(done, Tail(os), b)
SweepBlocks(a, bs) == IF bs = <<>> THEN a
                      ELSE LET a1 == ArgsOf(a, Head(bs))
                           IN SweepBlocks(TLCEval(SweepOps(a1, a1.m.blocks[Head(bs)].ops, Head(bs))), Tail(bs))
SweepRegions(a, rs) == IF rs = <<>> THEN a ELSE SweepRegions(SweepBlocks(a, Head(rs)), Tail(rs))
Whole == IF K.scope = 0 THEN <<<<K.top>>>>
         ELSE LET r == K.ir.ops[K.scope].regs IN SubSeq(r, 1, IF r = <<>> THEN 0 ELSE 1)

LastIt == IF Len(K.steps) > K.max THEN Len(K.steps) ELSE K.max
Init == c \in 1..Len(Cases) /\ ir = Cases[c].ir /\ it = 0 /\ ns = <<>>
Sweep == /\ it < LastIt /\ K.panic = "-"
         /\ LET r == TLCEval(SweepRegions([m |-> ir, n |-> 0], Whole))
            IN ir' = r.m /\ ns' = Append(ns, r.n)
         /\ it' = it + 1 /\ c' = c
Next == Sweep
Spec == Init /\ [][Next]_vars

(* ------------------------- what is left to report --------------------- *)
RECURSIVE Left(_, _, _)
Left(m, rs, full) ==
    FlattenSeq([r \in 1..Len(rs) |-> FlattenSeq([b \in 1..Len(rs[r]) |->
        LET os == m.blocks[rs[r][b]].ops
        IN FlattenSeq([i \in 1..Len(os) |->
            LET o == m.ops[os[i]]
                l == Legality(o)
            IN (IF l = "illegal" \/ (full /\ l # "legal") THEN <<<<o.k, l>>>> ELSE <<>>)
               \o (IF Sealed(o) THEN <<>> ELSE Left(m, o.regs, full))])])])

(* ---------------------------- canonical form -------------------------- *)
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE OpPath(_, _), BlockPath(_, _)
OpPath(m, o) == BlockPath(m, m.ops[o].b) \o <<Index(m.blocks[m.ops[o].b].ops, o)>>
BlockPath(m, b) ==
    IF b = K.top THEN <<1>>
    ELSE LET p == CHOOSE o \in 1..Len(m.ops) : \E r \in Rng(m.ops[o].regs) : Has(r, b)
             r == CHOOSE i \in 1..Len(m.ops[p].regs) : Has(m.ops[p].regs[i], b)
         IN OpPath(m, p) \o <<r, Index(m.ops[p].regs[r], b)>>
ValPath(m, v) == IF v[1] = 0 THEN OpPath(m, v[2]) \o <<v[3]>> ELSE BlockPath(m, v[2]) \o <<0, v[3]>>
RECURSIVE Canon(_, _)
Canon(m, bs) ==
    [b \in 1..Len(bs) |->
        [args |-> m.blocks[bs[b]].args,
         ops |-> [i \in 1..Len(m.blocks[bs[b]].ops) |->
            LET o == m.ops[m.blocks[bs[b]].ops[i]]
            IN [k |-> o.k, o |-> [j \in 1..Len(o.o) |-> ValPath(m, o.o[j])], rt |-> o.rt, sig |-> o.sig, keep |-> o.keep,
                regs |-> [r \in 1..Len(o.regs) |-> Canon(m, o.regs[r])]]]]]
Form(m) == Canon(m, <<K.top>>)

(* ----------------------- the real framework's doings ------------------ *)
Calm == K.panic = "-"
StepDone == (it >= 1 /\ it <= Len(K.steps)) =>
    LET s == K.steps[it]
    IN /\ s.n = ns[it] /\ s.it = 1 /\ (s.fix = 1) = (ns[it] = 0)
       /\ s.ir = Form(ir)
       /\ s.partial = Left(ir, Whole, FALSE)
       /\ s.full = Left(ir, Whole, TRUE)
Zero == {i \in 1..Len(ns) : ns[i] = 0}
RunLen == IF Zero # {} /\ (CHOOSE i \in Zero : \A j \in Zero : i <= j) <= K.max THEN (CHOOSE i \in Zero : \A j \in Zero : i <= j) ELSE K.max
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Good(r, full) == LET bad == Left(ir, Whole, full)
                 IN /\ r.ir = Form(ir) /\ r.edge = "edge"
                    /\ r.bad = bad
                    /\ (r.ok = 1) = (bad = <<>>)
                    /\ r.ok = 1 => (r.n = Sum(ns, it) /\ r.it = it /\ (r.fix = 1) = (ns[it] = 0))
RunDone == (it > 0 /\ it = RunLen) => (Good(K.partial, FALSE) /\ Good(K.full, TRUE))

(* --------------------------- resolving casts -------------------------- *)
Mat(f, t) == {x \in Rng(C.mats) : x[1] = f /\ x[2] = t}
RECURSIVE MatOps(_, _, _, _, _)
MatOps(m, o, v, t, n) == IF n = 0 THEN <<m, v>>
                         ELSE LET m1 == Add(m, Fresh("m.mat", <<v>>, <<t>>))
                              IN MatOps(PutBefore(m1, Len(m1.ops), o), o, <<0, Len(m1.ops), 1>>, t, n - 1)
Resolve(a, o) ==
    LET v == a.m.ops[o].o[1]
        f == TypeOf(a.m, v)
        t == Conv(a.m.ops[o].rt[1])
    IN IF f = t THEN [a EXCEPT !.m = TakeOut(Subst(a.m, <<0, o, 1>>, v), o), !.n = @ + 1]
       ELSE IF Mat(f, t) = {} THEN [a EXCEPT !.un = Append(@, <<f, t>>)]
       ELSE LET r == MatOps(a.m, o, v, t, (CHOOSE x \in Mat(f, t) : TRUE)[3])
            IN [a EXCEPT !.m = TakeOut(Subst(r[1], <<0, o, 1>>, r[2]), o), !.n = @ + 1]
RECURSIVE ResolveOps(_, _), ResolveBlocks(_, _)
ResolveOps(a, os) == IF os = <<>> THEN a
                     ELSE LET o == Head(os)
                              x == IF a.m.ops[o].k = CAST THEN Resolve(a, o) ELSE ResolveBlocks(a, FlattenSeq(a.m.ops[o].regs))
                          IN ResolveOps(TLCEval(x), Tail(os))
ResolveBlocks(a, bs) == IF bs = <<>> THEN a ELSE ResolveBlocks(ResolveOps(a, a.m.blocks[Head(bs)].ops), Tail(bs))
CastsDone == (it = 0 /\ K.panic = "-") =>
    LET r == ResolveBlocks([m |-> ir, n |-> 0, un |-> <<>>], <<K.top>>)
    IN K.cast.n = r.n /\ K.cast.un = r.un /\ K.cast.ir = Form(r.m)

Show == [t |-> c, i |-> it, step |-> K.id, diff |-> [panic |-> K.panic, ns |-> ns, model |-> Form(ir),
         got |-> IF it >= 1 /\ it <= Len(K.steps) THEN K.steps[it] ELSE <<>>, left |-> Left(ir, Whole, FALSE)]]
=============================================================================
