------------------------------- MODULE EffSem -------------------------------
(* First-class functions and effect handlers on top of IrSem:               *)
(*  - the direct-style language (tribute_control): lambdas, function        *)
(*    references, handle/perform/resume with deep handlers and one-shot     *)
(*    resumptions;                                                          *)
(*  - what the compiler turns it into: closures (closure.lambda,            *)
(*    closure.new), continuation-passing calls, evidence (ability.* ops).   *)
(*                                                                          *)
(* Frames carry two more fields: ro, the role ("fn", "body" of a handle,    *)
(* "cont" for a completion or a handler arm), with hb, the position of the  *)
(* handle operation of a body; and ev, the evidence in force (converted     *)
(* programs only).                                                          *)
EXTENDS IrSem

\* a lambda's closure lives in the heap: code, what it captured, evidence at its creation
CloV(a) == [k |-> "clo", a |-> a]
CloObj(f, b, ids, vs, ev) == [tag |-> "clo", fs |-> vs, f |-> f, b |-> b, ids |-> ids, ev |-> ev]
NewClo(s, e) == [k |-> "cln", s |-> s, e |-> e]
\* the continuation a CPS program is started with: object 1 of its heap, in
\* the shape closures have after lowering too
HaltV == PtrV(1)
HaltCode == [k |-> "halt"]
HaltObj == [tag |-> "halt", fs |-> <<HaltCode, NilV>>]
EvV(hs) == [k |-> "ev", hs |-> hs]
TokV(a) == [k |-> "tok", a |-> a]
NoEv == EvV(<<>>)

EvArg(args, d) == IF args # <<>> /\ args[1].k = "ev" THEN args[1] ELSE d
FrameOf(f, b, env, ro, hb, ev) ==
  [f |-> f, b |-> b, i |-> 1, env |-> env, cs |-> <<>>, ro |-> ro, hb |-> hb, ev |-> ev]
FunFrame(P, g, args) ==
  LET F == P.funcs[g] IN
  FrameOf(g, F.entry, Bind(TLCEval([j \in 1..F.nv |-> Undef]), F.blocks[F.entry].args, args),
          "fn", <<>>, EvArg(args, NoEv))
CloFrame(P, c, args) ==
  LET none == TLCEval([j \in 1..P.funcs[c.f].nv |-> Undef]) IN
  FrameOf(c.f, c.b, Bind(Bind(none, c.ids, c.fs), P.funcs[c.f].blocks[c.b].args, args), "fn", <<>>, EvArg(args, c.ev))
Finish(m, vs) == [m EXCEPT !.st = "done", !.rv = vs, !.fr = <<>>]
Push(m, fr, tail) == [m EXCEPT !.fr = Append(IF tail THEN SubSeq(@, 1, Len(@) - 1) ELSE @, fr)]
InsertAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))

CallName(P, m, op, g, args, tail) ==
  IF ~(g \in DOMAIN P.funcs) THEN Stuck(m)
  ELSE IF P.funcs[g].ext THEN IF tail THEN Stuck(m) ELSE ExtCall(P, m, op, g, args)
  ELSE IF Len(P.funcs[g].blocks[P.funcs[g].entry].args) # Len(args) THEN Stuck(m)
  ELSE Push(m, FunFrame(P, g, args), tail)
CallVal(P, m, op, v, args, tail) ==
  CASE v.k = "fn" -> CallName(P, m, op, v.s, args, tail)
    [] v.k = "cln" -> IF ~(v.s \in DOMAIN P.funcs) \/ P.funcs[v.s].ei > Len(args) THEN Stuck(m)
                      ELSE CallName(P, m, op, v.s, InsertAt(args, P.funcs[v.s].ei, v.e), tail)
    [] v.k = "clo" -> LET c == m.heap[v.a] IN
                      IF Len(P.funcs[c.f].blocks[c.b].args) # Len(args) THEN Stuck(m)
                      ELSE Push(m, CloFrame(P, c, args), tail)
    [] v.k = "halt" -> IF tail /\ Len(args) = 2 THEN Finish(m, Tail(args)) ELSE Stuck(m)
    [] v.k = "p" -> IF m.heap[v.a].tag = "halt" /\ tail THEN Finish(m, args) ELSE Stuck(m)
    [] OTHER -> Stuck(m)

\* a lambda sees what it captures and nothing else
MakeClo(m, op, f) ==
  Adv([m EXCEPT !.heap = Append(@, CloObj(f.f, op.rg[1][1], op.o, Vals(f, op.o), f.ev))], op, <<CloV(Len(m.heap) + 1)>>)

----------------------------------------------------------------------------
(* Direct-style handlers *)
HandleOf(P, fr) == P.funcs[fr.f].blocks[fr.hb[1]].ops[fr.hb[2]]
Arms(P, fr) == P.funcs[fr.f].blocks[HandleOf(P, fr).rg[3][1]].ops
ArmOf(P, fr, op) == {j \in 1..Len(Arms(P, fr)) : Arms(P, fr)[j].a.ab = op.a.ab /\ Arms(P, fr)[j].a.opn = op.a.opn}
\* the nearest frame that runs the body of a handle with a matching arm (0: none)
RECURSIVE Nearest(_, _, _, _)
Nearest(P, fr, op, j) ==
  IF j = 0 THEN 0
  ELSE IF fr[j].ro = "body" /\ ArmOf(P, fr[j], op) # {} THEN j
  ELSE Nearest(P, fr, op, j - 1)

EnterHandle(m, op, f) ==
  Push(m, FrameOf(f.f, op.rg[1][1], f.env, "body", <<f.b, f.i>>, f.ev), FALSE)
\* the body is done: the completion runs in its place, once
Complete(P, m, f, vs) ==
  LET h == HandleOf(P, f)
      b == h.rg[2][1] IN
  Push(m, FrameOf(f.f, b, Bind(f.env, P.funcs[f.f].blocks[b].args, vs), "cont", <<>>, f.ev), TRUE)
Perform(P, m, op, f, vs) ==
  LET j == Nearest(P, m.fr, op, Len(m.fr)) IN
  IF j = 0 THEN Stuck(m)
  ELSE LET h == m.fr[j]
           arm == Arms(P, h)[CHOOSE x \in ArmOf(P, h, op) : TRUE]
           blk == arm.rg[1][1]
           ids == P.funcs[h.f].blocks[blk].args
           Arm(args) == FrameOf(h.f, blk, Bind(h.env, ids, args), "cont", <<>>, h.ev) IN
       IF arm.a.kind = "fn"          \* answers where it is asked
       THEN IF Len(ids) # Len(vs) THEN Stuck(m) ELSE Push(m, Arm(vs), FALSE)
       ELSE IF Len(ids) = Len(vs)    \* op -> Never: nothing to resume
       THEN [m EXCEPT !.fr = Append(SubSeq(@, 1, j - 1), Arm(vs))]
       ELSE IF Len(ids) # Len(vs) + 1 THEN Stuck(m)
       ELSE LET m1 == Alloc(m, "resumption", <<SubSeq(m.fr, j, Len(m.fr))>>) IN
            [m1 EXCEPT !.fr = Append(SubSeq(m.fr, 1, j - 1), Arm(Append(vs, TokV(Len(m1.heap)))))]
\* the captured frames go back on the stack, above the frame that resumes
Resume(P, m, t, v) ==
  IF t.k # "tok" THEN Stuck(m)
  ELSE IF m.heap[t.a].tag = "consumed" THEN Trap(m)
  ELSE LET m1 == [m EXCEPT !.fr = @ \o m.heap[t.a].fs[1], !.heap[t.a] = [tag |-> "consumed", fs |-> <<>>]] IN
       Adv(m1, CurOp(P, m1), <<v>>)
TcYield(P, m, f, vs) ==
  IF f.cs # <<>> THEN Stuck(m)
  ELSE IF f.ro = "body" THEN Complete(P, m, f, vs)
  ELSE IF f.ro = "cont" THEN RetTo(P, m, vs)
  ELSE Stuck(m)

----------------------------------------------------------------------------
(* Evidence (converted programs) *)
\* the innermost entry for an ability (0: none)
Entry(ev, ab) == LET hits == {j \in 1..Len(ev.hs) : ev.hs[j].ab = ab} IN
                 IF hits = {} THEN 0 ELSE CHOOSE x \in hits : \A y \in hits : x >= y
Dispatch(P, m, op, f) ==       \* ability.handle_dispatch %ev, tr, handler, ...
  LET n == Len(op.a.abs)
      ev == Val(f, op.o[1])
      ev2 == EvV(ev.hs \o TLCEval([j \in 1..n |-> [ab |-> op.a.abs[j], tr |-> Val(f, op.o[2 * j]), h |-> Val(f, op.o[2 * j + 1])]])) IN
  IF ev.k # "ev" \/ Len(op.o) # 2 * n + 1 THEN Stuck(m)
  ELSE LET m1 == Goto(P, m, op.rg[1][1], <<ev2>>) IN
       IF m1.st = "stuck" THEN m1 ELSE SetTop(m1, [Top(m1) EXCEPT !.ev = ev2, !.cs = <<>>])
AbilityOp(P, m, op, f, vs) ==
  LET j == Entry(f.ev, op.a.ab)
      tail == op.n = "ability.perform"
      pay == IF tail THEN Tail(vs) ELSE vs
      m1 == Alloc(m, "", pay)
      p == PtrV(Len(m1.heap)) IN
  IF j = 0 THEN Stuck(m)
  ELSE IF tail THEN CallVal(P, m1, op, f.ev.hs[j].h, <<f.ev, vs[1], IntV(op.a.ix), p>>, TRUE)
  ELSE CallVal(P, m1, op, f.ev.hs[j].tr, <<f.ev, IntV(op.a.ix), p>>, FALSE)

\* the same on physical closures: evidence is a value, a closure an object of
\* code and environment (second argument of a handler's code)
ExtendEv(m, op, vs) ==         \* effect.extend %ev, %tag, %tr, %handler
  IF vs[1].k # "ev" \/ vs[2].k # "i" THEN Stuck(m)
  ELSE Adv(m, op, <<EvV(Append(vs[1].hs, [ab |-> op.a.ab, tr |-> vs[3], h |-> vs[4]]))>>)
EffectOp(P, m, op, vs) ==      \* effect.dispatch_tail %ev, %payload; effect.dispatch_cps %ev, %k, %payload
  LET ev == vs[1] IN
  IF ev.k # "ev" THEN Stuck(m)
  ELSE LET j == Entry(ev, op.a.ab) IN
  IF j = 0 THEN Stuck(m)
  ELSE LET cps == op.n = "effect.dispatch_cps"
           cl == IF cps THEN ev.hs[j].h ELSE ev.hs[j].tr IN
  IF cl.k # "p" THEN Stuck(m)
  ELSE LET c == m.heap[cl.a].fs IN
       CallVal(P, m, op, c[1], IF cps THEN <<ev, c[2], vs[2], IntV(op.a.ix), vs[3]>> ELSE <<ev, c[2], IntV(op.a.ix), vs[2]>>, FALSE)
\* prompt tags are fresh; nothing of the program's meaning hangs on their value
NextTag == "__tribute_next_tag"

----------------------------------------------------------------------------
EClass(op) ==
  CASE op.n = "func.call" /\ op.a.f = NextTag -> "NextTag"
    [] op.n = "effect.extend" -> "Extend"
    [] op.n \in {"effect.dispatch_tail", "effect.dispatch_cps"} -> "EffectOp"
    [] op.n \in {"tribute_control.call", "func.call", "func.tail_call"} -> "ECall"
    [] op.n \in {"tribute_control.call_indirect", "func.call_indirect", "func.tail_call_indirect"} -> "ECallInd"
    [] op.n \in {"tribute_control.lambda", "closure.lambda"} -> "Lambda"
    [] op.n = "closure.new" -> "ClosureNew"
    [] op.n \in {"tribute_control.func_ref"} -> "FuncRef"
    [] op.n = "tribute_control.return" -> "Return"
    [] op.n = "tribute_control.handle" -> "Handle"
    [] op.n = "tribute_control.perform" -> "Perform"
    [] op.n = "tribute_control.resume" -> "Resume"
    [] op.n = "tribute_control.yield" -> "TcYield"
    [] op.n = "ability.handle_dispatch" -> "Dispatch"
    [] op.n \in {"ability.perform", "ability.call"} -> "AbilityOp"
    [] OTHER -> Class(op)

StepE(P, m) ==
  LET f == Top(m) IN
  IF AtEnd(P, m) THEN Stuck(m)
  ELSE LET op == CurOp(P, m)
           c == EClass(op) IN
  IF \E j \in 1..Len(op.o) : f.env[op.o[j]].k = "undef" THEN Stuck(m)
  ELSE LET vs == Vals(f, op.o) IN
  CASE c = "NextTag" -> Adv(m, op, <<IntV(<<0, 0, 0, 0>>)>>)
    [] c = "Extend" -> ExtendEv(m, op, vs)
    [] c = "EffectOp" -> EffectOp(P, m, op, vs)
    [] c = "ECall" -> CallName(P, m, op, op.a.f, vs, op.n = "func.tail_call")
    [] c = "ECallInd" -> CallVal(P, m, op, vs[1], Tail(vs), op.n = "func.tail_call_indirect")
    [] c = "Lambda" -> MakeClo(m, op, f)
    [] c = "ClosureNew" -> Adv(m, op, <<NewClo(op.a.f, vs[1])>>)
    [] c = "FuncRef" -> Adv(m, op, <<FunV(op.a.f)>>)
    [] op.n = "tribute_control.return" -> RetTo(P, m, vs)
    [] c = "Handle" -> EnterHandle(m, op, f)
    [] c = "Perform" -> Perform(P, m, op, f, vs)
    [] c = "Resume" -> Resume(P, m, vs[1], vs[2])
    [] c = "TcYield" -> TcYield(P, m, f, vs)
    [] c = "Dispatch" -> Dispatch(P, m, op, f)
    [] c = "AbilityOp" -> AbilityOp(P, m, op, f, vs)
    [] OTHER -> StepOp(P, m)

\* hidden arguments of the entry function, by its calling convention
Hidden(F) == CASE F.cv = 1 -> <<NoEv>> [] F.cv = 2 -> <<NoEv, HaltV>> [] OTHER -> <<>>
StartE(P, g, args, physical) ==
  IF ~(g \in DOMAIN P.funcs) THEN [st |-> "stuck", fr |-> <<>>, heap |-> <<>>, out |-> <<>>, rv |-> <<>>]
  ELSE LET as == IF physical THEN Hidden(P.funcs[g]) \o args ELSE args IN
       IF Len(P.funcs[g].blocks[P.funcs[g].entry].args) # Len(as)
       THEN [st |-> "stuck", fr |-> <<>>, heap |-> <<>>, out |-> <<>>, rv |-> <<>>]
       ELSE [st |-> "run", fr |-> <<FunFrame(P, g, as)>>, heap |-> IF physical THEN <<HaltObj>> ELSE <<>>, out |-> <<>>, rv |-> <<>>]
=============================================================================
