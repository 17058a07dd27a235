------------------------------ MODULE Runtime ------------------------------
(* What programs rely on in the runtime library: evidence is a persistent   *)
(* map from abilities to the innermost handler, prompt tags are distinct    *)
(* within a thread, the one-time initialization happens once however many   *)
(* threads ask for it, byte strings are immutable values that share and     *)
(* keep alive what they are cut from, memory handed out is nobody else's    *)
(* until it is given back, and the sanitizing allocator notices writes next *)
(* to a block and blocks given back twice.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Fn0 == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Start(san) == [san |-> san, ev |-> Fn0, tags |-> Fn0, by |-> Fn0, own |-> Fn0, refs |-> Fn0,
               mem |-> Fn0, gone |-> <<>>, keys |-> 0, made |-> FALSE, up |-> {}, over |-> FALSE]

(* ------------------------------ evidence ------------------------------- *)
Evidence(m, e) ==
    CASE e[1] = "empty" -> {[m EXCEPT !.ev = Put(@, e[2], Fn0)]}
      [] e[1] = "extend" -> {[m EXCEPT !.ev = Put(@, e[2], Put(m.ev[e[3]], e[4], <<e[5], e[6], e[7]>>))]}
      [] e[1] = "lookup" -> IF e[4] = m.ev[e[2]][e[3]] THEN {m} ELSE {}
      [] OTHER -> {}

(* -------------------------------- threads ------------------------------ *)
(* "key" starts the creation of the thread-local key, "made" ends it, "up"  *)
(* is a thread returning from the initialization                            *)
Threads(m, e) ==
    CASE e[1] = "key" -> IF m.keys = 0 THEN {[m EXCEPT !.keys = 1]} ELSE {}
      [] e[1] = "made" -> IF m.keys = 1 /\ ~m.made THEN {[m EXCEPT !.made = TRUE]} ELSE {}
      [] e[1] = "up" -> IF m.made THEN {[m EXCEPT !.up = @ \cup {e[2]}]} ELSE {}
      [] e[1] = "tag" -> IF e[2] \in m.up /\ (e[2] \in DOMAIN m.tags => e[3] \notin m.tags[e[2]])
                         THEN {[m EXCEPT !.tags = Put(@, e[2], {e[3]} \cup IF e[2] \in DOMAIN @ THEN @[e[2]] ELSE {})]}
                         ELSE {}
      \* so many tags in a row, so many of them distinct
      [] e[1] = "many" -> IF e[2] = e[3] THEN {m} ELSE {}
      [] OTHER -> {}

(* ----------------------------- byte strings ---------------------------- *)
Cut(s, a, b) == SubSeq(s, a + 1, b)
InRange(s, a, n) == a + n <= Len(s)
Bytes(m, e) ==
    CASE e[1] = "mk" -> {[m EXCEPT !.by = Put(@, e[2], e[3]), !.refs = Put(@, e[2], 1)]}
      [] e[1] = "cat" -> {[m EXCEPT !.by = Put(@, e[2], m.by[e[3]] \o m.by[e[4]]), !.refs = Put(@, e[2], 1)]}
      [] e[1] = "cut" -> LET s == m.by[e[3]] IN
                         IF e[4] <= e[5] /\ e[5] <= Len(s)
                         THEN IF e[6] = "ok" THEN {[m EXCEPT !.by = Put(@, e[2], Cut(s, e[4], e[5])),
                                                            !.refs = Put(Put(@, e[3], @[e[3]] + 1), e[2], 1)]} ELSE {}
                         ELSE IF e[6] = "abort" THEN {[m EXCEPT !.over = TRUE]} ELSE {}
      [] e[1] = "len" -> IF e[3] = Len(m.by[e[2]]) THEN {m} ELSE {}
      [] e[1] = "eq" -> LET x == m.by[e[2]]
                            y == m.by[e[4]] IN
                        IF e[7] = (IF InRange(x, e[3], e[6]) /\ InRange(y, e[5], e[6])
                                      /\ Cut(x, e[3], e[3] + e[6]) = Cut(y, e[5], e[5] + e[6]) THEN 1 ELSE 0) THEN {m} ELSE {}
      [] e[1] = "see" -> IF e[3] = m.by[e[2]] /\ e[4] = m.refs[e[2]] THEN {m} ELSE {}
      [] e[1] = "out" -> IF e[3] = m.by[e[2]] THEN {m} ELSE {}
      [] OTHER -> {}

(* -------------------------------- memory ------------------------------- *)
(* mem: handle -> [lo, hi, n, v, hurt, st]; st is "live" or "freed".        *)
(* Blocks given back to the sanitizing allocator stay out of use until more *)
(* than Limit bytes (with a margin of Zone on both sides of each) wait.     *)
Zone == 32
Limit == 1048576
RECURSIVE Sum(_, _)
Sum(m, q) == IF q = <<>> THEN 0 ELSE m.mem[Head(q)].n + 2 * Zone + Sum(m, Tail(q))
RECURSIVE Trim(_, _)
Trim(m, q) == IF Sum(m, q) > Limit THEN Trim(m, Tail(q)) ELSE q
Held(m) == {h \in DOMAIN m.mem : m.mem[h].st = "live"} \cup {m.gone[i] : i \in 1..Len(m.gone)}
Apart(m, lo, hi) == \A h \in Held(m) : m.mem[h].hi <= lo \/ hi <= m.mem[h].lo
Memory(m, e) ==
    CASE e[1] = "alloc" ->   \* handle, size, lo, hi, aligned
            IF e[3] = 0 THEN (IF e[4] = -1 THEN {m} ELSE {})
            ELSE IF e[6] = 1 /\ Apart(m, e[4], e[5])
            THEN {[m EXCEPT !.mem = Put(@, e[2], [lo |-> e[4], hi |-> e[5], n |-> e[3], v |-> -1, hurt |-> FALSE, st |-> "live"])]} ELSE {}
      [] e[1] = "fill" -> {[m EXCEPT !.mem[e[2]].v = e[3]]}
      [] e[1] = "look" ->    \* the one value all bytes have, or -2
            LET b == m.mem[e[2]] IN
            IF b.st = "live" THEN (IF b.v = -1 \/ e[3] = b.v THEN {m} ELSE {})
            ELSE IF e[2] \in Held(m) /\ e[3] # 253 THEN {} ELSE {m}
      [] e[1] = "beside" -> {[m EXCEPT !.mem[e[2]].hurt = TRUE]}
      [] e[1] = "free" ->
            LET b == m.mem[e[2]]
                bad == m.san /\ (b.hurt \/ b.st = "freed")
                q == Append(m.gone, e[2])
                m1 == [m EXCEPT !.mem[e[2]].st = "freed"] IN
            IF bad THEN (IF e[3] = "abort" THEN {[m EXCEPT !.over = TRUE]} ELSE {})
            ELSE IF e[3] = "ok" THEN {[m1 EXCEPT !.gone = IF m.san THEN Trim(m1, q) ELSE <<>>]} ELSE {}
      [] OTHER -> {}

Kind(e) == CASE e[1] \in {"empty", "extend", "lookup"} -> "evidence"
             [] e[1] \in {"key", "made", "up", "tag", "many"} -> "threads"
             [] e[1] \in {"mk", "cat", "cut", "len", "eq", "see", "out"} -> "bytes"
             [] e[1] \in {"alloc", "fill", "look", "beside", "free"} -> "memory"
             [] OTHER -> "end"
After(m, e) ==
    IF e[1] = "end" THEN (IF e[2] = "done" \/ (e[2] = "abort" /\ m.over) THEN {m} ELSE {})
    ELSE IF m.over THEN {}
    ELSE CASE Kind(e) = "evidence" -> Evidence(m, e)
           [] Kind(e) = "threads" -> Threads(m, e)
           [] Kind(e) = "bytes" -> Bytes(m, e)
           [] Kind(e) = "memory" -> Memory(m, e)
           [] OTHER -> {}
=============================================================================
