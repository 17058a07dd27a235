------------------------------ MODULE Control ------------------------------
(* The control language: which programs are well formed, and which          *)
(* operations of an ill-formed one are at fault.                            *)
(*                                                                          *)
(* A program is a tree of operations, regions and blocks over typed values, *)
(* the types in use and the declared ability operations. A judge walks the  *)
(* operations in program order and blames each that breaks a rule:          *)
(*  - shape: attributes, operands, results, regions, terminators, types;    *)
(*  - names: a call or function reference finds its function in its own     *)
(*    module, with that signature; no function is defined twice;            *)
(*  - scope: a function sees nothing from outside, a lambda exactly what    *)
(*    it captures;                                                          *)
(*  - declarations: performs and handlers agree with the declared operation;*)
(*  - resumption: a resume token is used at most once on every path, only   *)
(*    inside its own clause, directly or through a chain of lambdas each of *)
(*    which is itself used at most once.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, o, blamed
vars == <<c, o, blamed>>

K == Cases[c]
Ops == K.ops
Rng(s) == {s[i] : i \in 1..Len(s)}
Op(x) == K.ops[x]
Ty(t) == K.types[t]
VT(v) == K.vals[v].t
All == 2..Len(K.ops)             \* operation 1 is the module itself
CtlOp(x, n) == x # 0 /\ Op(x).d = "tribute_control" /\ Op(x).n = n
IsModule(x) == Op(x).d = "core" /\ Op(x).n = "module"

(* --------------------------- position in the tree ---------------------- *)
PR(x) == IF Op(x).b = 0 THEN 0 ELSE K.blks[Op(x).b].g     \* region around
PO(x) == IF PR(x) = 0 THEN 0 ELSE K.regs[PR(x)].op        \* operation around
RECURSIVE Around(_)
Around(g) == IF g = 0 THEN {} ELSE {g} \cup Around(PR(K.regs[g].op))
Encl(x) == Around(PR(x))
Within(x, g) == g \in Encl(x)
Under(g) == {x \in All : Within(x, g)}
DefinedUnder(v, g) == g \in Around(K.vals[v].g)
Last(x) == LET ops == K.blks[Op(x).b].o IN ops[Len(ops)] = x

(* -------------------------------- types -------------------------------- *)
CtlTy(t, n) == Ty(t).d = "tribute_control" /\ Ty(t).n = n
IsCallable(t) == CtlTy(t, "callable")
IsToken(t) == CtlTy(t, "resume_token")
IsNever(t) == Ty(t).d = "core" /\ Ty(t).n = "never"
Conv(t) == Ty(t).cc \in 0..2
Callable(t) == t # 0 /\ IsCallable(t) /\ Ty(t).p # <<>> /\ Conv(t)
Res(t) == Ty(t).p[1]
Params(t) == Tail(Ty(t).p)
Token(t) == IsToken(t) /\ Len(Ty(t).p) = 2
Open(t) == Ty(t).d \in {"type", "tribute"} /\ Ty(t).n \in {"var", "infer", "unresolved"}
RECURSIVE Unresolved(_)
Unresolved(t) == Open(t) \/ \E p \in Rng(Ty(t).p) : Unresolved(p)
RECURSIVE Illogical(_)
Illogical(t) ==
    \/ Open(t) \/ IsToken(t)
    \/ Ty(t).d = "core" /\ Ty(t).n = "func"
    \/ Ty(t).d = "closure" /\ Ty(t).n = "closure"
    \/ \E p \in Rng(Ty(t).p) : Illogical(p)
TypeBad(t) ==
    /\ Ty(t).d = "tribute_control"
    /\ CASE Ty(t).n = "callable" -> Ty(t).p = <<>> \/ ~Conv(t) \/ \E p \in Rng(Ty(t).p) : Illogical(p)
         [] Ty(t).n = "resume_token" -> Len(Ty(t).p) # 2 \/ \E p \in Rng(Ty(t).p) : Illogical(p)
         [] OTHER -> TRUE
BadTypes == {t \in 1..Len(K.types) : TypeBad(t)}
Types(vs) == [i \in 1..Len(vs) |-> VT(vs[i])]

(* ------------------------------ attributes ----------------------------- *)
Has(x, k) == \E i \in 1..Len(Op(x).a) : Op(x).a[i].k = k
At(x, k) == Op(x).a[CHOOSE i \in 1..Len(Op(x).a) : Op(x).a[i].k = k]
Sym(x, k) == IF Has(x, k) THEN At(x, k).s ELSE ""      \* "": none
TyA(x, k) == IF Has(x, k) THEN At(x, k).y ELSE 0       \* 0: none
AttrsBad(x, syms, tys, more) ==
    \/ \E k \in syms : Sym(x, k) = ""
    \/ \E k \in tys : TyA(x, k) = 0
    \/ Has(x, "tribute.calling_convention")
    \/ ~more /\ \E i \in 1..Len(Op(x).a) : Op(x).a[i].k \notin (syms \cup tys)
Some == 0 - 1
Arity(x, no, nr, ng) ==
    /\ no = Some \/ Len(Op(x).o) = no
    /\ nr = Some \/ Len(Op(x).r) = nr
    /\ ng = Some \/ Len(Op(x).g) = ng
RT(x) == IF Op(x).rt = <<>> THEN 0 ELSE Op(x).rt[1]
OT(x) == IF Op(x).o = <<>> THEN 0 ELSE VT(Op(x).o[1])

(* ------------------------------ bodies --------------------------------- *)
Single(g) == Len(K.regs[g].b) = 1
Blk(g) == K.blks[K.regs[g].b[1]]
Term(b) == IF b.o = <<>> THEN 0 ELSE b.o[Len(b.o)]
BodyBad(t, g) ==
    \/ ~Callable(t) \/ ~Single(g)
    \/ LET b == Blk(g) IN
        \/ Types(b.a) # Params(t)
        \/ ~CtlOp(Term(b), "return")
        \/ Len(Op(Term(b)).o) = 1 /\ OT(Term(b)) # Res(t)
SeesOutside(g) == \E x \in Under(g) : \E v \in Rng(Op(x).o) : ~DefinedUnder(v, g)
EndShapeBad(x) == ~Arity(x, 1, 0, 0) \/ AttrsBad(x, {}, {}, FALSE) \/ ~Last(x)

FuncBad(x) ==
    \/ ~Arity(x, 0, 0, Some) \/ AttrsBad(x, {"sym_name"}, {"type"}, TRUE)
    \/ Len(Op(x).g) > 1
    \/ TyA(x, "type") # 0
       /\ \/ ~IsCallable(TyA(x, "type"))
          \/ Len(Op(x).g) = 1 /\ (BodyBad(TyA(x, "type"), Op(x).g[1]) \/ SeesOutside(Op(x).g[1]))
LambdaBad(x) ==
    \/ ~Arity(x, Some, 1, 1) \/ AttrsBad(x, {}, {}, TRUE)
    \/ ~IsCallable(RT(x)) \/ BodyBad(RT(x), Op(x).g[1])
RefBad(x) ==
    ~Arity(x, 0, 1, 0) \/ AttrsBad(x, {"func_ref"}, {}, FALSE) \/ ~IsCallable(RT(x))
OpenBad(x) == \E t \in Rng(Types(Op(x).o)) \cup Rng(Op(x).rt) : Unresolved(t)
CallBad(x) == ~Arity(x, Some, 1, 0) \/ AttrsBad(x, {"callee"}, {}, FALSE) \/ OpenBad(x)
IndirectBad(x) ==
    \/ ~Arity(x, Some, 1, 0) \/ AttrsBad(x, {}, {}, FALSE)
    \/ Op(x).o = <<>> \/ ~Callable(OT(x))
    \/ Types(Tail(Op(x).o)) # Params(OT(x)) \/ Op(x).rt # <<Res(OT(x))>>
ReturnBad(x) ==
    LET p == PO(x)
        t == IF CtlOp(p, "func") THEN TyA(p, "type") ELSE IF CtlOp(p, "lambda") THEN RT(p) ELSE 0
    IN EndShapeBad(x) \/ ~Callable(t) \/ OT(x) # Res(t)
PerformBad(x) ==
    \/ ~Arity(x, Some, 1, 0) \/ AttrsBad(x, {"op_name", "operation_kind"}, {"ability_ref"}, FALSE)
    \/ Sym(x, "operation_kind") \notin {"fn", "op"} \/ OpenBad(x)

Yields(b, t) == t = 0 \/ OT(Term(b)) \in {0, t}   \* an absent operand is the yield's own fault
HandleBad(x) ==
    \/ ~Arity(x, 0, 1, 3) \/ AttrsBad(x, {}, {}, FALSE)
    \/ \E g \in Rng(Op(x).g) : ~Single(g)
    \/ LET body == Blk(Op(x).g[1])
           comp == Blk(Op(x).g[2])
           tab == Blk(Op(x).g[3])
       IN \/ body.a # <<>> \/ Len(comp.a) # 1 \/ tab.a # <<>>
          \/ ~CtlOp(Term(body), "yield") \/ ~CtlOp(Term(comp), "yield")
          \/ ~Yields(body, VT(comp.a[1])) \/ ~Yields(comp, RT(x))
          \/ \E y \in Rng(tab.o) : ~CtlOp(y, "handler")
HandlerBad(x) ==
    LET p == PO(x)
        ans == IF CtlOp(p, "handle") THEN RT(p) ELSE 0
        kind == Sym(x, "kind")
        res == TyA(x, "operation_result_type")
    IN
    \/ ~Arity(x, 0, 0, 1)
    \/ AttrsBad(x, {"op_name", "kind"}, {"ability_ref", "operation_result_type"}, FALSE)
    \/ kind \notin {"fn", "op"}
    \/ ~CtlOp(p, "handle") \/ Len(Op(p).g) < 3 \/ Op(p).g[3] # PR(x)
    \/ LET g == Op(x).g[1] IN
       \/ ~Single(g)
       \/ LET b == Blk(g)
              lt == IF b.a = <<>> THEN 0 ELSE VT(b.a[Len(b.a)])
              tok == lt # 0 /\ Token(lt)
          IN \/ ~CtlOp(Term(b), "yield")
             \/ IF kind = "op" /\ ~IsNever(res)
                THEN \/ ~tok
                     \/ Ty(lt).p[1] # res \/ (ans # 0 /\ Ty(lt).p[2] # ans)
                     \/ ~Yields(b, ans)
                ELSE \/ tok
                     \/ kind = "op" /\ \E y \in Under(g) : CtlOp(y, "resume")
                     \/ ~Yields(b, IF kind = "fn" THEN res ELSE ans)
ResumeBad(x) ==
    \/ ~Arity(x, 2, 1, 0) \/ AttrsBad(x, {}, {}, FALSE)
    \/ ~Token(OT(x))
    \/ VT(Op(x).o[2]) # Ty(OT(x)).p[1] \/ RT(x) # Ty(OT(x)).p[2]
YieldBad(x) ==
    LET p == PO(x) IN
    \/ EndShapeBad(x) \/ IsToken(OT(x))
    \/ ~(\/ CtlOp(p, "handler")
         \/ CtlOp(p, "handle") /\ \E i \in 1..2 : i <= Len(Op(p).g) /\ Op(p).g[i] = PR(x))

ShapeBad(x) ==
    /\ Op(x).d = "tribute_control"
    /\ CASE Op(x).n = "func" -> FuncBad(x)
         [] Op(x).n = "lambda" -> LambdaBad(x)
         [] Op(x).n = "func_ref" -> RefBad(x)
         [] Op(x).n = "call" -> CallBad(x)
         [] Op(x).n = "call_indirect" -> IndirectBad(x)
         [] Op(x).n = "return" -> ReturnBad(x)
         [] Op(x).n = "perform" -> PerformBad(x)
         [] Op(x).n = "handle" -> HandleBad(x)
         [] Op(x).n = "handler" -> HandlerBad(x)
         [] Op(x).n = "resume" -> ResumeBad(x)
         [] Op(x).n = "yield" -> YieldBad(x)
         [] OTHER -> TRUE
TwiceHandled(x) ==
    /\ CtlOp(x, "handler") /\ TyA(x, "ability_ref") # 0 /\ Sym(x, "op_name") # ""
    /\ LET p == PO(x) IN CtlOp(p, "handle") /\ Len(Op(p).g) = 3 /\ Op(p).g[3] = PR(x)
    /\ \E y \in 2..(x - 1) : /\ CtlOp(y, "handler") /\ Op(y).b = Op(x).b
                             /\ TyA(y, "ability_ref") = TyA(x, "ability_ref")
                             /\ Sym(y, "op_name") = Sym(x, "op_name")

(* -------------------------------- names -------------------------------- *)
RECURSIVE Home(_)
Home(x) == IF x = 1 THEN 1 ELSE LET p == PO(x) IN IF IsModule(p) THEN p ELSE Home(p)
Funcs(x, s) == {f \in All : CtlOp(f, "func") /\ Sym(f, "sym_name") = s /\ Home(f) = Home(x)}
TwiceDefined(x) == /\ CtlOp(x, "func") /\ Sym(x, "sym_name") # ""
                   /\ \E f \in Funcs(x, Sym(x, "sym_name")) : f < x
Names(x) == IF CtlOp(x, "func_ref") THEN Sym(x, "func_ref") ELSE IF CtlOp(x, "call") THEN Sym(x, "callee") ELSE ""
NameBad(x) ==
    /\ Names(x) # ""
    /\ LET fs == Funcs(x, Names(x)) IN
       \/ fs = {}
       \/ LET t == TyA(CHOOSE f \in fs : TRUE, "type") IN
          IF CtlOp(x, "call")
          THEN Callable(t) /\ (Types(Op(x).o) # Params(t) \/ Op(x).rt # <<Res(t)>>)
          ELSE /\ t # 0 /\ RT(x) # 0
               /\ \/ ~Callable(t) \/ ~Callable(RT(x))
                  \/ Ty(t).p # Ty(RT(x)).p
                  \/ Ty(RT(x)).cc < Ty(t).cc

(* ------------------------------- captures ------------------------------ *)
Hidden(x, g) == \E h \in Encl(x) : CtlOp(K.regs[h].op, "func") /\ Within(K.regs[h].op, g)
Outside(g) == {v \in UNION {Rng(Op(x).o) : x \in {y \in Under(g) : ~Hidden(y, g)}} : ~DefinedUnder(v, g)}
CaptureBad(x) ==
    /\ CtlOp(x, "lambda") /\ Op(x).g # <<>>
    /\ \/ Cardinality(Rng(Op(x).o)) # Len(Op(x).o)
       \/ Rng(Op(x).o) # Outside(Op(x).g[1])

(* ----------------------------- declarations ---------------------------- *)
Decls(x) == {i \in 1..Len(K.decls) : K.decls[i].ab = TyA(x, "ability_ref") /\ K.decls[i].n = Sym(x, "op_name")}
TwiceDeclared == \E i, j \in 1..Len(K.decls) : i < j /\ K.decls[i].ab = K.decls[j].ab /\ K.decls[i].n = K.decls[j].n
UsesOperation(x) ==
    /\ TyA(x, "ability_ref") # 0 /\ Sym(x, "op_name") # ""
    /\ \/ CtlOp(x, "perform")
       \/ CtlOp(x, "handler") /\ Op(x).g # <<>> /\ K.regs[Op(x).g[1]].b # <<>>
ClauseArgs(x) ==
    LET as == Blk(Op(x).g[1]).a
        n == Len(as)
    IN IF n > 0 /\ IsToken(VT(as[n])) THEN SubSeq(as, 1, n - 1) ELSE as
DeclBad(x) ==
    /\ UsesOperation(x)
    /\ \/ Decls(x) = {}
       \/ LET d == K.decls[CHOOSE i \in Decls(x) : TRUE] IN
          IF CtlOp(x, "perform")
          THEN d.k # Sym(x, "operation_kind") \/ d.p # Types(Op(x).o) \/ d.r # RT(x)
          ELSE d.k # Sym(x, "kind") \/ d.p # Types(ClauseArgs(x)) \/ d.r # TyA(x, "operation_result_type")

(* ------------------------------ resumption ----------------------------- *)
RECURSIVE Clause(_)
Clause(x) == LET p == PO(x) IN IF p = 0 THEN 0 ELSE IF CtlOp(p, "handler") THEN p ELSE Clause(p)
RECURSIVE Function(_)
Function(x) == LET p == PO(x) IN IF p = 0 THEN 0 ELSE IF CtlOp(p, "func") THEN p ELSE Function(p)
Uses(v) == UNION {{<<x, i>> : i \in {j \in 1..Len(Op(x).o) : Op(x).o[j] = v}} : x \in {y \in All : v \in Rng(Op(y).o)}}
Exclusive(x, y) ==   \* in different arms of a conditional
    \E g \in Encl(x) : LET f == K.regs[g].op IN
        Op(f).d = "scf" /\ Op(f).n = "if" /\ \E h \in Rng(Op(f).g) : h # g /\ Within(y, h)
AtMostOnce(us) == \A a, b \in us : a # b => Exclusive(a[1], b[1])
Captures(us) == {u \in us : CtlOp(u[1], "lambda")}
InCapture(x, cap) == Op(cap).g # <<>> /\ Within(x, Op(cap).g[1])

Again(x) == /\ CtlOp(x, "call") /\ Sym(x, "callee") # ""
            /\ Function(x) # 0 /\ Sym(Function(x), "sym_name") = Sym(x, "callee")
Ends(us) == {u \in us : ~CtlOp(u[1], "lambda") /\ ((CtlOp(u[1], "call_indirect") /\ u[2] = 1) \/ Again(u[1]))}
CarrierBad(h, v) ==
    LET us == Uses(v)
        ins == {u \in us : Clause(u[1]) = h}
        caps == Captures(ins)
        ends == Ends(ins)
    IN \/ ins # us
       \/ ins # caps \cup ends
       \/ ~AtMostOnce(caps) \/ ~AtMostOnce(ends)
       \* captured, it is called only where it is captured
       \/ caps # {} /\ \E e \in ends : CtlOp(e[1], "call_indirect") /\ \A a \in caps : ~InCapture(e[1], a[1])
       \/ \E a \in caps : Op(a[1]).r = <<>>
Made(caps) == {Op(a[1]).r[1] : a \in {b \in caps : Op(b[1]).r # <<>>}}
Heirs(h, v) == Made(Captures({u \in Uses(v) : Clause(u[1]) = h}))
RECURSIVE Carriers(_, _)
Carriers(h, vs) == LET more == vs \cup UNION {Heirs(h, v) : v \in vs} IN IF more = vs THEN vs ELSE Carriers(h, more)
Holds(x) == CtlOp(x, "handler") /\ Op(x).g # <<>> /\ K.regs[Op(x).g[1]].b # <<>>
            /\ LET as == Blk(Op(x).g[1]).a IN as # <<>> /\ IsToken(VT(as[Len(as)]))
ResumptionBad(h) ==
    /\ Holds(h)
    /\ LET as == Blk(Op(h).g[1]).a
           tok == as[Len(as)]
           us == Uses(tok)
           ins == {u \in us : Clause(u[1]) = h}
           res == {u \in ins : CtlOp(u[1], "resume") /\ u[2] = 1}
           caps == Captures(ins)
           cars == Carriers(h, Made(caps))
       IN \/ ins # res \cup caps \/ ins # us
          \/ ~AtMostOnce(res)
          \/ \E a, b \in caps : a # b /\ ~InCapture(a[1], b[1]) /\ ~InCapture(b[1], a[1]) /\ ~Exclusive(a[1], b[1])
          \/ \E a \in caps : Op(a[1]).g # <<>> /\ ~\E u \in res : InCapture(u[1], a[1])
          \/ \E v \in cars : CarrierBad(h, v)
          \* no lambda holds two of them
          \/ \E x \in All : CtlOp(x, "lambda") /\ Clause(x) = h
                            /\ Cardinality({i \in 1..Len(Op(x).o) : Op(x).o[i] \in cars \cup {tok}}) > 1
StrayToken(x) ==
    \/ \E t \in Rng(Op(x).rt) : IsToken(t)
    \/ \E g \in Rng(Op(x).g) : \E b \in Rng(K.regs[g].b) :
         LET as == K.blks[b].a
         IN \E i \in 1..Len(as) : IsToken(VT(as[i])) /\ ~(CtlOp(x, "handler") /\ i = Len(as))

(* How often a token is resumed at most when a clause runs once: calling a  *)
(* lambda runs its body, a call handed a lambda may call it, a conditional  *)
(* runs one arm.                                                            *)
RECURSIVE Sum(_)
Sum(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + Sum(Tail(ns))
Most(ns) == IF ns = {} THEN 0 ELSE CHOOSE n \in ns : \A m \in ns : m <= n
Maker(v) == {x \in All : CtlOp(x, "lambda") /\ v \in Rng(Op(x).r)}
RECURSIVE RunOp(_, _, _), RunRegion(_, _, _), RunValue(_, _, _)
RunRegion(g, tok, seen) == Sum([i \in 1..Len(Blk(g).o) |-> RunOp(Blk(g).o[i], tok, seen)])
RunValue(v, tok, seen) ==
    IF Maker(v) \subseteq seen THEN 0
    ELSE LET l == CHOOSE x \in Maker(v) : TRUE IN RunRegion(Op(l).g[1], tok, seen \cup {l})
RunOp(x, tok, seen) ==
    CASE CtlOp(x, "resume") -> IF Op(x).o[1] = tok THEN 1 ELSE 0
      [] CtlOp(x, "call_indirect") \/ CtlOp(x, "call") ->
            Sum([i \in 1..Len(Op(x).o) |-> RunValue(Op(x).o[i], tok, seen)])
      [] CtlOp(x, "lambda") \/ CtlOp(x, "func") -> 0
      [] Op(x).d = "scf" /\ Op(x).n = "if" -> Most({RunRegion(g, tok, seen) : g \in {h \in Rng(Op(x).g) : Single(h)}})
      [] OTHER -> Sum([i \in 1..Len(Op(x).g) |-> IF Single(Op(x).g[i]) THEN RunRegion(Op(x).g[i], tok, seen) ELSE 0])
OneShot(h) == Holds(h) => LET as == Blk(Op(h).g[1]).a IN RunRegion(Op(h).g[1], as[Len(as)], {}) <= 1

(* ------------------------------ the judge ------------------------------ *)
Faults(x) ==
    (IF ShapeBad(x) THEN {"shape"} ELSE {}) \cup (IF TwiceHandled(x) THEN {"handled twice"} ELSE {})
    \cup (IF TwiceDefined(x) THEN {"defined twice"} ELSE {}) \cup (IF NameBad(x) THEN {"name"} ELSE {})
    \cup (IF CaptureBad(x) THEN {"captures"} ELSE {}) \cup (IF DeclBad(x) THEN {"declaration"} ELSE {})
    \cup (IF ResumptionBad(x) THEN {"resumption"} ELSE {}) \cup (IF StrayToken(x) THEN {"token"} ELSE {})
\* which of two functions or declarations of one name is meant is left open, and so is
\* the duplicate clause of a table that is itself malformed
Undecided(x) ==
    \/ Names(x) # "" /\ Cardinality(Funcs(x, Names(x))) > 1
    \/ UsesOperation(x) /\ Cardinality(Decls(x)) > 1
    \/ TwiceHandled(x) /\ HandleBad(PO(x))
Free == BadTypes # {} \/ TwiceDeclared

Init == c \in 1..Len(Cases) /\ o = 1 /\ blamed = {}
Judge == /\ o < Len(K.ops) /\ o' = o + 1
         /\ blamed' = TLCEval(IF Faults(o + 1) # {} THEN blamed \cup {o + 1} ELSE blamed)
         /\ UNCHANGED c
Next == Judge
Spec == Init /\ [][Next]_vars

Answered == K.got.panic = ""
\* an operation is blamed exactly if it is at fault
Blame == o > 1 /\ ~Undecided(o) => (o \in Rng(K.got.ops)) = (o \in blamed)
\* faults that belong to no operation are reported as such
FreeFaults == o = 1 => (K.got.free = 1) = Free
\* and nothing outside the program is blamed
Inside == o = 1 => Rng(K.got.ops) \subseteq All
\* accepted exactly if well formed
Verdict == o = Len(K.ops) => (K.got.ops = <<>> /\ K.got.free = 0) = (blamed = {} /\ ~Free)

\* the rules suffice: no clause of a well-formed program resumes twice
Affine == o = Len(K.ops) /\ blamed = {} /\ ~Free => \A h \in All : OneShot(h)

Show == [t |-> c, i |-> o, step |-> IF o = 1 THEN "types" ELSE Op(o).n,
         diff |-> [id |-> K.id, expected |-> IF o = 1 THEN {} ELSE Faults(o), types |-> BadTypes, got |-> K.got]]
=============================================================================
