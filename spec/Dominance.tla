----------------------------- MODULE Dominance -----------------------------
(* Dominance, by walking the graph.  A walker starts at the entry block and *)
(* may follow any edge that stays inside the region, but must never step on *)
(* the block `avoid`.  A block dominates another exactly when the walker    *)
(* that avoids it can never get to the other although control can.          *)
(*                                                                          *)
(* Every case carries a graph and what the real analysis said about it.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)

VARIABLES c, avoid, at, seen
vars == <<c, avoid, at, seen>>

K == Cases[c]
N == Len(K.g)
Blocks == 1..N
Rng(s) == {s[i] : i \in 1..Len(s)}
Succ(b) == Rng(K.g[b]) \ {0}        \* 0 stands for a block of another region
Pred(b) == {p \in Blocks : b \in Succ(p)}

(* the walk, as the set of blocks some walker may have come to *)
Init == /\ c \in 1..Len(Cases) /\ avoid \in 0..Len(Cases[c].g)
        /\ seen = IF avoid = 1 THEN {} ELSE {1}
        /\ at = "walking"
Steps == (UNION {Succ(b) : b \in seen}) \ (seen \cup {avoid})
Walk == Steps # {} /\ at = "walking" /\ seen' = seen \cup Steps /\ UNCHANGED <<c, avoid, at>>
Stop == Steps = {} /\ at = "walking" /\ at' = "done" /\ UNCHANGED <<c, avoid, seen>>
Next == Walk \/ Stop
Spec == Init /\ [][Next]_vars

Done == at = "done"
Dom == {<<p[1], p[2]>> : p \in Rng(K.got.dom)}
Reach == Rng(K.got.reach)

(* with nothing to avoid, the walker visits what control can reach *)
Reachable == (Done /\ avoid = 0) => Reach = seen
Dominates == (Done /\ avoid # 0) => {b \in Blocks : <<avoid, b>> \in Dom} = (Reach \ seen)
Edges == (Done /\ avoid = 0) =>
    /\ \A b \in Blocks : K.got.succ[b] = K.g[b]
    /\ \A b \in Blocks : Rng(K.got.pred[b]) = Pred(b)
    /\ K.got.entry = 1 /\ K.got.foreign = 0
    /\ (K.got.valid = 1) <=> (\A b \in Blocks : 0 \notin Rng(K.g[b]))

Show == [t |-> c, i |-> avoid, step |-> K.id, diff |-> [graph |-> K.g, seen |-> seen, got |-> K.got]]
=============================================================================
