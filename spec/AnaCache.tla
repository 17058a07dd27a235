------------------------------ MODULE AnaCache -----------------------------
(* The analysis cache: what was computed for an analysis and a target is    *)
(* what is handed out until it is dropped, whatever happened to the IR in   *)
(* between; what was dropped, or never computed, is computed from the IR as *)
(* it is now; dropping touches nothing else.                                *)
(* `world` stands for the state of the IR: its number grows with changes.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_CASES)
VARIABLES t, i, world, cache
vars == <<t, i, world, cache>>
Keys == (1..3) \X (1..3)

Steps == Traces[t].steps
S == Steps[i]
Init == t \in 1..Len(Traces) /\ i = 1 /\ world = 1 /\ cache = [k \in Keys |-> 0]

Fill(k) == [cache EXCEPT ![k] = IF @ = 0 THEN world ELSE @]
Without(ks) == [k \in Keys |-> IF k \in ks THEN 0 ELSE cache[k]]
After == LET k == <<S.a, S.t>> IN
         CASE S.k = "get" -> Fill(k)
           [] S.k = "drop" -> Without({k})
           [] S.k = "dropall" -> Without({q \in Keys : q[2] = S.t})
           [] S.k = "clear" -> Without(Keys)
           [] OTHER -> cache
Next == /\ i <= Len(Steps)
        /\ cache' = After /\ i' = i + 1 /\ t' = t
        /\ world' = IF S.k = "change" THEN world + 1 ELSE world
Spec == Init /\ [][Next]_vars

Size(ca) == Cardinality({k \in Keys : ca[k] # 0})
Answer == LET k == <<S.a, S.t>> IN
          CASE S.k = "get" -> S.res = <<Fill(k)[k], 1>> /\ S.comp = (IF cache[k] = 0 THEN 1 ELSE 0)
            [] S.k = "cached" -> S.res = (IF cache[k] = 0 THEN <<0, 0>> ELSE <<cache[k], 1>>) /\ S.comp = 0
            [] OTHER -> S.comp = 0
Obeys == i <= Len(Steps) => (S.k # "panic" /\ Answer /\ S.len = Size(After) /\ (S.empty = 1) = (Size(After) = 0))
Show == [t |-> t, i |-> i, step |-> IF i <= Len(Steps) THEN S.k ELSE "-", diff |-> [cache |-> cache, world |-> world, got |-> IF i <= Len(Steps) THEN S ELSE 0]]
=============================================================================
