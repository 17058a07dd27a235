--------------------------------- MODULE Io ---------------------------------
(* Standard input and output of a program as the operating system sees it.  *)
(*                                                                          *)
(* A program is a sequence of commands: read a line, write some bytes with  *)
(* or without a newline, write the last line read.  Reading and writing     *)
(* happen through system calls that may be interrupted, transfer only part  *)
(* of what was asked for, fail, or report the end of the input.             *)
(*                                                                          *)
(*  read  the line ends at the first newline, wherever the chunks end; the  *)
(*        newline and one carriage return in front of it are not part of    *)
(*        it.  Nothing is read while a whole line is waiting, what follows  *)
(*        the newline stays for the next read.  At the end of the input a   *)
(*        line without newline is still a line; without any byte it is the  *)
(*        end of file.  A line that is not UTF-8 is reported as such.  A    *)
(*        failure is reported with its code and drops the unfinished line.  *)
(*        An interrupted call is repeated.                                  *)
(*  write exactly the bytes not yet taken are offered again until all are   *)
(*        taken; an interrupted call is repeated; after a failure, or when  *)
(*        nothing is taken, the rest is dropped (the newline may still be   *)
(*        tried).                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

LF == 10
CR == 13

(* ------------------------------- UTF-8 -------------------------------- *)
Tail8(b) == b \in 128..191
Width(b) == IF b \in 0..127 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
Second(b) == CASE b = 224 -> 160..191 [] b = 237 -> 128..159 [] b = 240 -> 144..191 [] b = 244 -> 128..143 [] OTHER -> 128..191
Utf8(s) ==
    \A i \in 1..Len(s) :
        IF Tail8(s[i])
        THEN \E j \in 1..3 : /\ i - j >= 1 /\ Width(s[i - j]) > j
                             /\ \A k \in 1..j - 1 : Tail8(s[i - k])
        ELSE /\ Width(s[i]) > 0
             /\ i + Width(s[i]) - 1 <= Len(s)
             /\ Width(s[i]) > 1 => s[i + 1] \in Second(s[i])
             /\ \A k \in 1..Width(s[i]) - 1 : Tail8(s[i + k])

(* ------------------------------ the machine ---------------------------- *)
(* pc: next command, ph: what it is doing, buf: input not yet consumed,     *)
(* pend: output not yet taken, nl: a dropped write's newline may be tried,  *)
(* last: the last line read, res: result to be reported                     *)
Start == [pc |-> 1, ph |-> "next", buf |-> <<>>, pend |-> <<>>, nl |-> FALSE, more |-> FALSE, last |-> <<>>, res |-> <<>>]
HasLine(b) == \E i \in 1..Len(b) : b[i] = LF
LineEnd(b) == CHOOSE i \in 1..Len(b) : b[i] = LF /\ \A j \in 1..i - 1 : b[j] # LF
IsPrefix8(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
LineRes(l) == IF Utf8(l) THEN <<0, 0, l>> ELSE <<2, 0, <<>>>>
Report(m, r, b) == [m EXCEPT !.ph = "report", !.res = r, !.buf = b]

(* what happens without any system call *)
Silent(P, m) ==
    CASE m.ph = "next" ->
            IF m.pc > Len(P) THEN {[m EXCEPT !.ph = "end"]}
            ELSE LET p == P[m.pc]
                 IN IF p[1] = "read" THEN {[m EXCEPT !.ph = "read"]}
                    ELSE LET b == IF p[1] = "echo" THEN m.last ELSE p[2]
                         IN {[m EXCEPT !.ph = "write", !.nl = FALSE, !.more = (p[3] = 1),
                                       !.pend = IF p[3] = 1 THEN Append(b, LF) ELSE b]}
      [] m.ph = "write" /\ (m.pend = <<>> \/ m.nl) -> {[m EXCEPT !.ph = "next", !.pc = @ + 1, !.pend = <<>>, !.nl = FALSE]}
      [] m.ph = "read" /\ HasLine(m.buf) ->
            LET e == LineEnd(m.buf)
                l == SubSeq(m.buf, 1, IF e > 1 /\ m.buf[e - 1] = CR THEN e - 2 ELSE e - 1)
            IN {Report(m, LineRes(l), Drop(m.buf, e))}
      [] OTHER -> {}

(* a system call, or a report of the program: the states it may lead to *)
Visible(m, e) ==
    CASE e[1] = "r" /\ m.ph = "read" /\ ~HasLine(m.buf) /\ e[2] = 0 /\ e[3] > 0 ->
            (CASE e[4] = "d" -> IF Len(e[5]) <= e[3] THEN {[m EXCEPT !.buf = @ \o e[5]]} ELSE {}
              [] e[4] = "i" -> {m}
              [] e[4] = "e" -> {IF m.buf = <<>> THEN Report(m, <<1, 0, <<>>>>, <<>>) ELSE Report(m, LineRes(m.buf), <<>>)}
              [] e[4] = "x" -> {Report(m, <<3, e[5], <<>>>>, <<>>)}
              [] OTHER -> {})
      [] e[1] = "w" /\ m.ph = "write" /\ m.pend # <<>> /\ e[2] = 1 /\ e[3] # <<>> /\ IsPrefix8(e[3], m.pend) ->
            (CASE e[4] = "n" /\ e[5] > 0 -> {[m EXCEPT !.pend = Drop(@, e[5])]}
              [] e[4] = "i" -> {[m EXCEPT !.nl = FALSE]}
              [] OTHER -> IF m.more /\ Len(m.pend) > 1 /\ ~m.nl THEN {[m EXCEPT !.pend = <<LF>>, !.nl = TRUE]}
                          ELSE {[m EXCEPT !.pend = <<>>, !.nl = FALSE]})
      [] e[1] = "g" /\ m.ph = "report" ->
            (* the text of a system error is not prescribed *)
            IF e[2] = m.res[1] /\ e[3] = m.res[2] /\ (e[2] = 3 \/ e[4] = m.res[3])
            THEN {[m EXCEPT !.ph = "next", !.pc = @ + 1, !.last = IF m.res[1] = 0 THEN m.res[3] ELSE <<>>, !.res = <<>>]} ELSE {}
      [] e[1] = "end" /\ m.ph = "end" /\ e[2] = "done" -> {[m EXCEPT !.ph = "over"]}
      [] OTHER -> {}

RECURSIVE Close(_, _)
Close(P, S) == LET n == S \cup UNION {Silent(P, m) : m \in S} IN IF n = S THEN S ELSE Close(P, n)
=============================================================================
