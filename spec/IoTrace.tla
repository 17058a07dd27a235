------------------------------ MODULE IoTrace ------------------------------
(* Recorded system calls and reports of real programs, against Io.          *)
EXTENDS Io, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VP_CASES)
VARIABLES t, i, S
vars == <<t, i, S>>
K == Cases[t]
Init == t \in 1..Len(Cases) /\ i = 0 /\ S = Close(K.prog, {Start})
Step == /\ i < Len(K.events) /\ S # {}
        /\ i' = i + 1 /\ t' = t
        /\ S' = TLCEval(Close(K.prog, UNION {Visible(m, K.events[i + 1]) : m \in S}))
Next == Step
Spec == Init /\ [][Next]_vars

Accepted == S # {}
Show == [t |-> t, i |-> i, step |-> IF i = 0 THEN <<>> ELSE <<K.how, K.events[i][1]>>, diff |-> IF S = {} THEN K.events[i] ELSE <<>>]
=============================================================================
