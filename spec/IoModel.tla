------------------------------ MODULE IoModel ------------------------------
(* Every environment: what Io promises, whatever the system calls answer.   *)
EXTENDS Io

Chunks == {<<97>>, <<10>>, <<13>>, <<97, 10>>, <<13, 10, 98>>, <<195>>, <<169>>}
Progs == {<<<<"read">>, <<"read">>, <<"read">>>>,
          <<<<"read">>, <<"echo", <<>>, 1>>, <<"read">>, <<"echo", <<>>, 0>>>>,
          <<<<"write", <<97, 98>>, 1>>, <<"write", <<>>, 0>>, <<"write", <<10>>, 0>>, <<"write", <<>>, 1>>>>}
MaxIn == 4
MaxCalls == 7

VARIABLES P, m, in, raw, out, want, calls, bad, eof
vars == <<P, m, in, raw, out, want, calls, bad, eof>>
Init == P \in Progs /\ m = Start /\ in = <<>> /\ raw = <<>> /\ out = <<>> /\ want = <<>> /\ calls = 0 /\ bad = FALSE /\ eof = FALSE

Env(s) ==
    (IF s.ph = "read" THEN {<<"r", 0, 8192, "i">>, <<"r", 0, 8192, "e">>, <<"r", 0, 8192, "x", 5>>}
                           \cup (IF Len(in) <= MaxIn /\ ~eof THEN {<<"r", 0, 8192, "d", ch>> : ch \in Chunks} ELSE {}) ELSE {})
    \cup (IF s.ph = "write" THEN UNION {{<<"w", 1, SubSeq(s.pend, 1, k), "n", n>> : n \in 0..k} : k \in 1..Len(s.pend)}
                            \cup {<<"w", 1, s.pend, "i">>, <<"w", 1, s.pend, "x", 5>>} ELSE {})
    \cup (IF s.ph = "report" THEN {<<"g", s.res[1], s.res[2], s.res[3]>>} ELSE {})
    \cup (IF s.ph = "end" THEN {<<"end", "done">>} ELSE {})

Quiet == \E n \in Silent(P, m) :
            /\ m' = n
            /\ raw' = raw \o SubSeq(m.buf, 1, Len(m.buf) - Len(n.buf))
            /\ want' = IF m.ph = "next" /\ n.ph = "write" THEN want \o n.pend ELSE want
            /\ UNCHANGED <<P, in, out, calls, bad, eof>>
Call == \E e \in Env(m) :
            /\ (e[1] \in {"r", "w"}) => calls < MaxCalls
            /\ \E n \in Visible(m, e) :
                /\ m' = n
                /\ calls' = IF e[1] \in {"r", "w"} THEN calls + 1 ELSE calls
                /\ in' = IF e[1] = "r" /\ e[4] = "d" THEN in \o e[5] ELSE in
                /\ raw' = IF e[1] = "r" /\ e[4] \in {"e", "x"} THEN raw \o m.buf ELSE raw
                /\ eof' = (eof \/ (e[1] = "r" /\ e[4] = "e"))
                /\ out' = IF e[1] = "w" /\ e[4] = "n" THEN out \o SubSeq(e[3], 1, e[5]) ELSE out
                /\ bad' = (bad \/ (e[1] = "w" /\ (e[4] = "x" \/ (e[4] = "n" /\ e[5] = 0))))
                /\ UNCHANGED <<P, want>>
Next == Quiet \/ Call
Spec == Init /\ [][Next]_vars

(* every byte of the input is either still waiting or was consumed, in order *)
NothingLost == in = raw \o m.buf
(* a line never contains its newline, and is only reported when it is text *)
Clean == m.ph = "report" => /\ ~HasLine(m.res[3])
                            /\ m.res[1] = 0 => Utf8(m.res[3])
(* output arrives in order, without repetition; complete when nothing failed *)
InOrder == ~bad => IsPrefix8(out, want)
Complete == (m.ph = "over" /\ ~bad) => out = want
(* a program never waits for input while a line is there *)
NoWait == \A e \in Env(m) : (e[1] = "r" /\ HasLine(m.buf)) => Visible(m, e) = {}
(* it is never stuck: whatever the system answers, there is a next step *)
Progress == m.ph # "over" => \/ Silent(P, m) # {}
                             \/ \E e \in Env(m) : Visible(m, e) # {}
=============================================================================
