------------------------------ MODULE ModGraph ------------------------------
(* Functions of a module and the references between them.                   *)
(*                                                                          *)
(* Reachability is a machine: it starts from the roots - program entries,   *)
(* functions of a foreign calling convention, exports and configured        *)
(* entries - and marks whatever a marked function calls, tail-calls or      *)
(* takes the address of.  Dead-function elimination keeps exactly what is   *)
(* marked when nothing can be added.  The call graph and its cycles are     *)
(* derived from the same description.                                       *)
(*                                                                          *)
(* Every case carries the description of a module and what the real         *)
(* analyses did with it.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, marked, done
vars == <<c, marked, done>>

K == Cases[c]
Range2(s) == {s[i] : i \in 1..Len(s)}
Funcs == {f \in Range2(K.funcs) : K.recursive = 1 \/ f.top = 1}   \* what elimination may look at
AllFuncs == Range2(K.funcs)

RECURSIVE JoinPath(_, _)
JoinPath(p, s) == IF p = <<>> THEN s ELSE JoinPath(SubSeq(p, 1, Len(p) - 1), p[Len(p)] \o "::" \o s)
DName(f) == JoinPath(f.dpath, f.sym)     \* the name elimination knows a function by
QName(f) == JoinPath(f.path, f.sym)      \* the name the call graph knows a function by

Targets(f) == {r[2] : r \in Range2(f.refs)}
Exports == {e.f : e \in {e \in Range2(K.exports) : K.recursive = 1 \/ e.top = 1}}
Entry(f) == \/ f.sym \in {"main", "_start"}
            \/ f.abi = 1
            \/ \E x \in Range2(K.extra) : x = DName(f) \/ x = f.sym
Roots == {DName(f) : f \in {f \in Funcs : Entry(f)}} \cup Exports

Init == c \in 1..Len(Cases) /\ marked = {} /\ done = FALSE
MarkRoots == marked = {} /\ Roots # {} /\ marked' = Roots /\ UNCHANGED <<c, done>>
Succ(m) == UNION {Targets(f) : f \in {f \in Funcs : DName(f) \in m}}
MarkCallees == marked # {} /\ ~(Succ(marked) \subseteq marked) /\ marked' = marked \cup Succ(marked) /\ UNCHANGED <<c, done>>
Finish == ~done /\ (IF marked = {} THEN Roots = {} ELSE Succ(marked) \subseteq marked) /\ done' = TRUE /\ UNCHANGED <<c, marked>>
Next == MarkRoots \/ MarkCallees \/ Finish
Spec == Init /\ [][Next]_vars

KeptIds == LET keep(f) == (f \notin Funcs) \/ (DName(f) \in marked)
           IN [i \in 1..Len(SelectSeq(K.funcs, LAMBDA f : keep(f))) |-> SelectSeq(K.funcs, LAMBDA f : keep(f))[i].id]
Gone == {f \in Funcs : DName(f) \notin marked}

Keeps == done => K.dce.kept = KeptIds
Reports == done => (K.dce.count = Cardinality(Gone) /\ Len(K.dce.removed) = Cardinality(Gone)
                    /\ Range2(K.dce.removed) = {DName(f) : f \in Gone})
Stable == done => (K.dce.again = 0 /\ K.dce.parses = 1)

(* -------------------------- the call graph -------------------------- *)
Edges == UNION {{<<QName(f), t>> : t \in Targets(f)} : f \in AllFuncs}
Names == {QName(f) : f \in AllFuncs}
Consts == UNION {{r[2] : r \in {r \in Range2(f.refs) : r[1] = "k"}} : f \in AllFuncs}
Calls(f, n) == Cardinality({i \in 1..Len(f.refs) : f.refs[i][1] # "k" /\ f.refs[i][2] = n})
RECURSIVE Total(_, _)
Total(s, n) == IF s = <<>> THEN 0 ELSE Calls(Head(s), n) + Total(Tail(s), n)
Called == UNION {{r[2] : r \in {r \in Range2(f.refs) : r[1] # "k"}} : f \in AllFuncs}

RECURSIVE Closure(_)
Closure(s) == LET n == {e[2] : e \in {e \in Edges : e[1] \in s /\ e[2] \in Names}} IN IF n \subseteq s THEN s ELSE Closure(s \cup n)
From(n) == Closure({e[2] : e \in {e \in Edges : e[1] = n /\ e[2] \in Names}})   \* what n may come to call
Graph == done => (Range2(K.cg.edges) = Edges /\ {d[1] : d \in Range2(K.cg.defs)} = Names /\ Len(K.cg.defs) = Cardinality(Names)
                  /\ \A d \in Range2(K.cg.defs) : \E f \in AllFuncs : f.id = d[2] /\ QName(f) = d[1])
Sites == done => (Range2(K.cg.consts) = Consts /\ Range2(K.cg.sites) = {<<n, Total(K.funcs, n)>> : n \in Called})
Recursion == done => Range2(K.cg.rec) = {n \in Names : n \in From(n)}
Components == done => (LET id(n) == (CHOOSE p \in Range2(K.cg.scc) : p[1] = n)[2]
                       IN /\ {p[1] : p \in Range2(K.cg.scc)} = Names /\ Len(K.cg.scc) = Cardinality(Names)
                          /\ \A n, k \in Names : (id(n) = id(k)) <=> (n = k \/ (k \in From(n) /\ n \in From(k)))
                          \* callees are numbered before their callers
                          /\ \A n, k \in Names : k \in From(n) => id(k) <= id(n))

Show == [t |-> c, i |-> 0, step |-> K.id, diff |-> [marked |-> marked, keep |-> KeptIds, got |-> K.dce]]
=============================================================================
