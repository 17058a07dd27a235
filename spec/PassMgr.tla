------------------------------ MODULE PassMgr ------------------------------
(* Running a tree of pass managers over a tree of operations.               *)
(*                                                                          *)
(* A manager runs its passes, in registration order, on one target; after   *)
(* each it notifies the observer, then asks the verifier, using its own     *)
(* hooks or else those it inherited.  Then, one after the other, its nested *)
(* managers collect the operations of their kind at or below the target (in *)
(* reading order) and run on each that is still there.  A pass may fail,    *)
(* erase operations, add functions, turn an operation into another kind or  *)
(* break an invariant.  Nobody is run on, or shown, an operation that has   *)
(* been erased or is of another kind; the first failure stops everything    *)
(* and names the pass.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, tree, stack, log, res
vars == <<c, tree, stack, log, res>>

K == Cases[c]
Kinds == {"core", "func"}           \* what may anchor a nested manager: nothing inside refers outside
Mgr(m) == K.mgrs[m]
Alive(o) == /\ tree[o].k # "gone"
RECURSIVE Below(_, _, _)
Below(tr, o, root) == o = root \/ (tr[o].up # 0 /\ Below(tr, tr[o].up, root))

RECURSIVE Walk(_)
Walk(o) == <<o>> \o FlattenSeq([i \in 1..Len(tree[o].kids) |-> Walk(tree[o].kids[i])])
Targets(o, k) == SelectSeq(Walk(o), LAMBDA x : tree[x].k = k)

Effect(p, o) == LET e == {i \in 1..Len(K.effects) : K.effects[i][1] = p /\ K.effects[i][2] = o}
                IN IF e = {} THEN <<p, o, "none", 0>> ELSE K.effects[CHOOSE i \in e : TRUE]

(* what a pass does to the operations *)
Erase(tr, x) == IF tr[x].up = 0 THEN tr
                ELSE [tr EXCEPT ![tr[x].up].kids = SelectSeq(@, LAMBDA y : y # x), ![x].up = 0]
AddTo(tr, b) == IF b = 0 THEN tr
                ELSE Append([tr EXCEPT ![b].kids = Append(@, Len(tr) + 1)], [k |-> "func", up |-> b, kids |-> <<>>, bad |-> 0])
Apply(tr, o, e) == CASE e[3] = "erase" -> Erase(tr, e[4])
                     [] e[3] = "add" -> AddTo(tr, IF tr[o].k = "core" THEN o ELSE tr[o].up)
                     [] e[3] = "retag" -> [tr EXCEPT ![e[4]].k = "test"]
                     [] e[3] = "dirty" -> [tr EXCEPT ![e[4]].bad = 1]
                     [] OTHER -> tr

(* a frame: manager m on target t, at pass or nested manager number i; work *)
(* is what the nested manager number i has still to visit, had = whether t  *)
(* was attached when the frame began                                        *)
Frame(m, t, ver, ins) == [m |-> m, t |-> t, ph |-> "pass", i |-> 1, work |-> <<>>, had |-> tree[t].up # 0,
                          ver |-> IF Mgr(m).ver # 0 THEN Mgr(m).ver ELSE ver,
                          ins |-> IF Mgr(m).ins # 0 THEN Mgr(m).ins ELSE ins]

Init == /\ c \in 1..Len(Cases) /\ tree = Cases[c].ops /\ log = <<>> /\ res = <<"running", "-">>
        /\ stack = <<[m |-> 1, t |-> Cases[c].root, ph |-> "pass", i |-> 1, work |-> <<>>, had |-> FALSE,
                      ver |-> Cases[c].mgrs[1].ver, ins |-> Cases[c].mgrs[1].ins]>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
With(f) == Append(Pop, f)
Running == res[1] = "running" /\ stack # <<>>
PName(p) == "p" \o ToString(p)

RunPass ==
    /\ Running /\ Top.ph = "pass" /\ Top.i <= Len(Mgr(Top.m).passes)
    /\ LET p == Mgr(Top.m).passes[Top.i]
           e == Effect(p, Top.t)
           tr == Apply(tree, Top.t, e)
           l1 == Append(log, <<"run", p, Top.t, 0>>)
           there == tr[Top.t].k = Mgr(Top.m).k /\ (Top.had => tr[Top.t].up # 0)
           l2 == IF Top.ins # 0 THEN Append(l1, <<"see", Top.ins, Top.t, p>>) ELSE l1
           l3 == IF Top.ver # 0 THEN Append(l2, <<"verify", Top.ver, Top.t, 0>>) ELSE l2
       IN IF e[3] = "fail" THEN res' = <<"execution", PName(p)>> /\ log' = l1 /\ UNCHANGED <<tree, stack>>
          ELSE /\ tree' = tr
               /\ IF ~there THEN stack' = Pop /\ log' = l1 /\ UNCHANGED res
                  ELSE /\ log' = l3
                       /\ stack' = With([Top EXCEPT !.i = @ + 1])
                       /\ res' = IF Top.ver # 0 /\ tr[Top.t].bad = 1 THEN <<"verification", PName(p)>> ELSE res
    /\ UNCHANGED c

Turn ==       \* passes are through; on to the nested managers
    /\ Running /\ Top.ph = "pass" /\ Top.i > Len(Mgr(Top.m).passes)
    /\ stack' = With([Top EXCEPT !.ph = "collect", !.i = 1]) /\ UNCHANGED <<c, tree, log, res>>
Collect ==
    /\ Running /\ Top.ph = "collect" /\ Top.i <= Len(Mgr(Top.m).nested)
    /\ stack' = With([Top EXCEPT !.ph = "visit", !.work = TLCEval(Targets(Top.t, Mgr(Mgr(Top.m).nested[Top.i]).k))])
    /\ UNCHANGED <<c, tree, log, res>>
Visit ==
    /\ Running /\ Top.ph = "visit" /\ Top.work # <<>>
    /\ LET n == Mgr(Top.m).nested[Top.i]
           o == Head(Top.work)
           rest == With([Top EXCEPT !.work = Tail(@)])
       IN IF tree[o].k # Mgr(n).k \/ ~Below(tree, o, Top.t) THEN stack' = rest /\ UNCHANGED res      \* erased, or something else by now
          ELSE IF tree[o].k \notin Kinds THEN res' = <<"verification", "nested-pass-manager">> /\ UNCHANGED stack
          ELSE stack' = Append(rest, Frame(n, o, Top.ver, Top.ins)) /\ UNCHANGED res
    /\ UNCHANGED <<c, tree, log>>
Onward ==
    /\ Running /\ Top.ph = "visit" /\ Top.work = <<>>
    /\ stack' = With([Top EXCEPT !.ph = "collect", !.i = @ + 1]) /\ UNCHANGED <<c, tree, log, res>>
Return ==
    /\ Running /\ Top.ph = "collect" /\ Top.i > Len(Mgr(Top.m).nested)
    /\ stack' = Pop /\ UNCHANGED <<c, tree, log, res>>
Finish == stack = <<>> /\ res[1] = "running" /\ res' = <<"ok", "-">> /\ UNCHANGED <<c, tree, stack, log>>
Next == RunPass \/ Turn \/ Collect \/ Visit \/ Onward \/ Return \/ Finish
Spec == Init /\ [][Next]_vars

(* ---------------------- the real run against the model ---------------- *)
SoFar == Len(log) <= Len(K.log) /\ \A i \in 1..Len(log) : log[i] = K.log[i]
Ended == res[1] # "running" => (log = K.log /\ res = K.res)

Show == [t |-> c, i |-> Len(log), step |-> K.id, diff |-> [model |-> log, mres |-> res, got |-> K.log, res |-> K.res, mgrs |-> K.mgrs, ops |-> K.ops, effects |-> K.effects]]
=============================================================================
