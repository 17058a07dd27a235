------------------------------- MODULE IrSem -------------------------------
(* Operational semantics of TrunkIR programs over the func, arith, scf, cf, *)
(* core and adt dialects: the meaning a user of the compiler relies on.     *)
(*                                                                          *)
(* A program P is a record [funcs |-> [name -> function]]; a function is    *)
(*   [nv, params, entry, blocks, ext] with a flat block table; a block is   *)
(*   [args, ops]; an op is                                                  *)
(*   [n, o, r, t, ot, a, rg, s] = name, operand value ids, result ids,      *)
(*   result types, operand types, attributes, regions (block id lists),     *)
(*   successor block ids.                                                   *)
(*                                                                          *)
(* A machine state m is                                                     *)
(*   [st, fr, heap, out, rv]: status, frame stack, heap, observable output, *)
(*   returned value.  A frame is [f, b, i, env, cs]; cs is the stack of     *)
(*   structured-control contexts [k, b, i].                                 *)
EXTENDS Words, FiniteSets, TLC

----------------------------------------------------------------------------
(* Values *)
IntV(b)   == [k |-> "i", b |-> b]
FltV(s, w) == [k |-> "f", s |-> s, w |-> w]   \* (-1)^s times an 8-byte magnitude; two zeros
InfV(s)   == [k |-> "inf", s |-> s]
NanV      == [k |-> "nan"]
FunV(s)   == [k |-> "fn", s |-> s]
PtrV(a)   == [k |-> "p", a |-> a]
NilV      == [k |-> "nil"]
NullV     == [k |-> "null"]
StrV(b)   == [k |-> "str", b |-> b]
BytesV(b) == [k |-> "by", b |-> b]      \* immutable byte string
ListV(s)  == [k |-> "li", s |-> s]      \* immutable list
Undef     == [k |-> "undef"]

TyBytes(t) == CASE t = "core.i1"  -> 1
                [] t = "core.i8"  -> 1
                [] t = "core.i16" -> 2
                [] t = "core.i32" -> 4
                [] t = "core.i64" -> 8
                [] t = "tribute_rt.int" -> 4
                [] t = "tribute_rt.nat" -> 4
                [] t = "tribute_rt.bool" -> 1
                [] OTHER -> 0
IsIntTy(t) == TyBytes(t) # 0
IsFltTy(t) == t \in {"core.f32", "core.f64", "tribute_rt.float"}
IsBitTy(t) == t \in {"core.i1", "tribute_rt.bool"}
\* signedness of a source type in widening conversions
IsUnsTy(t) == t \in {"tribute_rt.nat", "tribute_rt.bool"}

\* i1 arithmetic lives in one bit
Norm(t, b) == IF IsBitTy(t) THEN <<b[1] % 2>> ELSE b
BoolW(p) == IF p THEN <<1>> ELSE <<0>>
Truthy(v) == ~IsZero(v.b)

----------------------------------------------------------------------------
(* Pure operators *)
IntBinNames == {"arith.addi", "arith.subi", "arith.muli", "arith.divsi", "arith.divui",
                "arith.remsi", "arith.remui", "arith.and", "arith.or", "arith.xor",
                "arith.shl", "arith.shr", "arith.shru"}
DivNames == {"arith.divsi", "arith.divui", "arith.remsi", "arith.remui"}
FltBinNames == {"arith.addf", "arith.subf", "arith.mulf", "arith.divf"}

DivTraps(n, x, y) ==
  n \in DivNames /\ (IsZero(y) \/ (n = "arith.divsi" /\ DivSOverflows(x, y)))

ShAmt(x, y) == WToNat(SubSeq(y, 1, 1)) % (8 * Len(x))
IntBin(n, x, y) ==
  CASE n = "arith.addi" -> WAdd(x, y)
    [] n = "arith.subi" -> WSub(x, y)
    [] n = "arith.muli" -> WMul(x, y)
    [] n = "arith.divsi" -> WDivS(x, y)
    [] n = "arith.divui" -> WDivU(x, y)
    [] n = "arith.remsi" -> WRemS(x, y)
    [] n = "arith.remui" -> WRemU(x, y)
    [] n = "arith.and" -> WAnd(x, y)
    [] n = "arith.or" -> WOr(x, y)
    [] n = "arith.xor" -> WXor(x, y)
    [] n = "arith.shl" -> WShl(x, ShAmt(x, y))
    [] n = "arith.shr" -> WShrS(x, ShAmt(x, y))
    [] n = "arith.shru" -> WShrU(x, ShAmt(x, y))

CmpI(p, x, y) ==
  CASE p = "eq" -> x = y
    [] p = "ne" -> x # y
    [] p = "slt" -> SLt(x, y)
    [] p = "sle" -> SLe(x, y)
    [] p = "sgt" -> SLt(y, x)
    [] p = "sge" -> SLe(y, x)
    [] p = "ult" -> ULt(x, y)
    [] p = "ule" -> ULe(x, y)
    [] p = "ugt" -> ULt(y, x)
    [] p = "uge" -> ULe(y, x)

\* Floats are modelled on the integers (sign and magnitude, exact in f32/f64
\* within the bounds the generators respect), the two infinities and NaN.
IsNan(v) == v.k = "nan"
IsInf(v) == v.k = "inf"
IsZeroF(v) == v.k = "f" /\ IsZero(v.w)
FltNeg(v) == IF IsNan(v) THEN v ELSE [v EXCEPT !.s = 1 - @]
FltAdd(x, y) ==
  IF IsInf(x) /\ IsInf(y) THEN IF x.s = y.s THEN x ELSE NanV
  ELSE IF IsInf(x) THEN x
  ELSE IF IsInf(y) THEN y
  ELSE IF x.s = y.s THEN FltV(x.s, WAdd(x.w, y.w))
  ELSE IF x.w = y.w THEN FltV(0, Zero(8))
  ELSE IF ULt(x.w, y.w) THEN FltV(y.s, WSub(y.w, x.w)) ELSE FltV(x.s, WSub(x.w, y.w))
FltBin(n, x, y) ==
  IF IsNan(x) \/ IsNan(y) THEN NanV
  ELSE LET s == IF x.s = y.s THEN 0 ELSE 1 IN
       CASE n = "arith.addf" -> FltAdd(x, y)
         [] n = "arith.subf" -> FltAdd(x, FltNeg(y))
         [] n = "arith.mulf" -> IF IsInf(x) \/ IsInf(y)
                                THEN IF IsZeroF(x) \/ IsZeroF(y) THEN NanV ELSE InfV(s)
                                ELSE FltV(s, WMul(x.w, y.w))
         [] n = "arith.divf" -> IF IsInf(x) THEN IF IsInf(y) THEN NanV ELSE InfV(s)
                                ELSE IF IsInf(y) THEN FltV(s, Zero(8))
                                ELSE IF IsZeroF(y) THEN IF IsZeroF(x) THEN NanV ELSE InfV(s)
                                ELSE FltV(s, WDivU(x.w, y.w))   \* only exact quotients are generated
FltLt(x, y) ==
  IF IsInf(x) THEN x.s = 1 /\ ~(IsInf(y) /\ y.s = 1)
  ELSE IF IsInf(y) THEN y.s = 0
  ELSE IF IsZero(x.w) /\ IsZero(y.w) THEN FALSE
  ELSE IF x.s # y.s THEN x.s = 1
  ELSE IF x.s = 0 THEN ULt(x.w, y.w) ELSE ULt(y.w, x.w)
CmpF(p, x, y) ==
  IF IsNan(x) \/ IsNan(y) THEN p = "une"
  ELSE LET lt == FltLt(x, y) gt == FltLt(y, x) IN
       CASE p = "oeq" -> ~lt /\ ~gt
         [] p = "une" -> lt \/ gt
         [] p = "olt" -> lt
         [] p = "ole" -> ~gt
         [] p = "ogt" -> gt
         [] p = "oge" -> ~lt

ConvNames == {"arith.cast", "arith.trunc", "arith.extend", "arith.convert"}
Conv(st, dt, v) ==
  IF IsIntTy(st) /\ IsIntTy(dt)
  THEN IF TyBytes(dt) <= TyBytes(st) THEN IntV(WTrunc(v.b, TyBytes(dt)))
       ELSE IF IsUnsTy(st) \/ IsBitTy(st) THEN IntV(WZext(v.b, TyBytes(dt)))
       ELSE IntV(WSext(v.b, TyBytes(dt)))
  ELSE IF IsIntTy(st) /\ IsFltTy(dt)
  THEN IF IsUnsTy(st) \/ ~IsNeg(v.b) THEN FltV(0, WZext(v.b, 8)) ELSE FltV(1, WZext(WNeg(v.b), 8))
  ELSE IF IsFltTy(st) /\ IsIntTy(dt)
  THEN IntV(WTrunc(IF v.s = 1 THEN WNeg(v.w) ELSE v.w, TyBytes(dt)))
  ELSE v
\* a float outside the range of the integer type traps
ConvTraps(st, dt, v) ==
  /\ IsFltTy(st) /\ IsIntTy(dt)
  /\ \/ v.k # "f"
     \/ LET n == TyBytes(dt) min == WZext(MinInt(n), 8) IN
        IF IsUnsTy(dt) THEN (v.s = 1 /\ ~IsZero(v.w)) \/ ~IsZero(SubSeq(v.w, n + 1, 8))
        ELSE IF v.s = 1 THEN ULt(min, v.w) ELSE ULe(min, v.w)

ConstV(op) ==
  IF op.a.ck = "int" THEN IntV(Norm(op.t[1], op.a.v))
  ELSE IF op.a.ck = "flt" THEN FltV(op.a.s, op.a.v)
  ELSE IF op.a.ck = "inf" THEN InfV(op.a.s)
  ELSE IF op.a.ck = "nan" THEN NanV
  ELSE NilV

----------------------------------------------------------------------------
(* Machine helpers *)
Top(m) == m.fr[Len(m.fr)]
SetTop(m, f) == [m EXCEPT !.fr[Len(m.fr)] = f]
Blk(P, f) == P.funcs[f.f].blocks[f.b]
CurOp(P, m) == LET f == Top(m) IN Blk(P, f).ops[f.i]
AtEnd(P, m) == LET f == Top(m) IN f.i > Len(Blk(P, f).ops)
Val(f, id) == f.env[id]
Vals(f, ids) == TLCEval([j \in 1..Len(ids) |-> f.env[ids[j]]])
Bind(env, ids, vs) ==
  IF ids = <<>> THEN env
  ELSE IF Len(ids) = 1 THEN [env EXCEPT ![ids[1]] = vs[1]]
  ELSE TLCEval([j \in DOMAIN env |-> IF \E k \in 1..Len(ids) : ids[k] = j
                             THEN vs[CHOOSE k \in 1..Len(ids) : ids[k] = j] ELSE env[j]])

\* finish a simple op: bind its results, advance
Adv(m, op, vs) == LET f == Top(m) IN
  SetTop(m, [f EXCEPT !.env = Bind(@, op.r, vs), !.i = @ + 1])
Trap(m) == [m EXCEPT !.st = "trap"]
Stuck(m) == [m EXCEPT !.st = "stuck"]

\* enter block id with arguments
Goto(P, m, b, args) == LET f == Top(m)
                           ids == P.funcs[f.f].blocks[b].args IN
  IF Len(ids) # Len(args) THEN Stuck(m)
  ELSE SetTop(m, [f EXCEPT !.b = b, !.i = 1, !.env = Bind(@, ids, args)])

NewFrame(P, g, args) ==
  LET F == P.funcs[g] IN
  [f |-> g, b |-> F.entry, i |-> 1,
   env |-> Bind(TLCEval([j \in 1..F.nv |-> Undef]), F.blocks[F.entry].args, args), cs |-> <<>>]

\* return value v from the top frame to the caller's pending call op
RECURSIVE RetTo(_, _, _)
RetTo(P, m, vs) ==
  LET rest == SubSeq(m.fr, 1, Len(m.fr) - 1) IN
  IF rest = <<>> THEN [m EXCEPT !.fr = rest, !.st = "done", !.rv = vs]
  ELSE LET m1 == [m EXCEPT !.fr = rest]
           op == CurOp(P, m1) IN
       Adv(m1, op, IF vs = <<>> THEN <<NilV>> ELSE vs)

\* external functions: their call is the observable output
ExtCall(P, m, op, g, args) ==
  LET m1 == [m EXCEPT !.out = Append(@, <<g, args>>)] IN
  Adv(m1, op, IF args = <<>> THEN <<NilV>> ELSE <<args[1]>>)

----------------------------------------------------------------------------
(* Built-in functions of the standard library: operators and byte strings   *)
IntOps == [x \in {"+", "-", "*", "/", "%"} |->
            CASE x = "+" -> "arith.addi" [] x = "-" -> "arith.subi" [] x = "*" -> "arith.muli"
              [] x = "/" -> "arith.divsi" [] x = "%" -> "arith.remsi"]
NatOps == [x \in {"+", "-", "*", "/", "%"} |->
            CASE x = "/" -> "arith.divui" [] x = "%" -> "arith.remui" [] OTHER -> IntOps[x]]
FltOps == [x \in {"+", "-", "*", "/"} |->
            CASE x = "+" -> "arith.addf" [] x = "-" -> "arith.subf" [] x = "*" -> "arith.mulf"
              [] x = "/" -> "arith.divf"]
CmpOps == {"==", "!=", "<", "<=", ">", ">="}
CmpName(x, lt) == CASE x = "==" -> "eq" [] x = "!=" -> "ne" [] x = "<" -> lt \o "lt"
                    [] x = "<=" -> lt \o "le" [] x = ">" -> lt \o "gt" [] x = ">=" -> lt \o "ge"
CmpFName(x) == IF x = "!=" THEN "une" ELSE "o" \o (IF x = "==" THEN "eq" ELSE CmpName(x, ""))
Prepend == "List::__tribute_list_prepend_intrinsic"
\* calls of the generic declaration carry the element type in their name
SpecialPrepend == {Prepend \o "$Int", Prepend \o "$1"}
\* name -> [c |-> class, n |-> operator]
Builtins ==
  LET Names(pre, ops) == {<<pre \o "::" \o x, x>> : x \in ops}
      I == Names("Int", DOMAIN IntOps) N == Names("Nat", DOMAIN NatOps) F == Names("Float", DOMAIN FltOps)
      IC == Names("Int", CmpOps) NC == Names("Nat", CmpOps) FC == Names("Float", CmpOps)
      B == {"__bytes_get_or_panic", "__tribute_bytes_len", "__tribute_bytes_concat",
            "__tribute_bytes_range_equal", "__tribute_bytes_slice_or_panic",
            Prepend, "std::io::__tribute_io_write"}
      All == {q[1] : q \in I \cup N \cup F \cup IC \cup NC \cup FC} \cup B
      Of(S, g) == (CHOOSE q \in S : q[1] = g)[2]
      In(S, g) == \E q \in S : q[1] = g IN
  TLCEval([g \in All |->
     IF In(I, g) THEN [c |-> "int", n |-> IntOps[Of(I, g)]]
     ELSE IF In(N, g) THEN [c |-> "int", n |-> NatOps[Of(N, g)]]
     ELSE IF In(F, g) THEN [c |-> "flt", n |-> FltOps[Of(F, g)]]
     ELSE IF In(IC, g) THEN [c |-> "cmpi", n |-> CmpName(Of(IC, g), "s")]
     ELSE IF In(NC, g) THEN [c |-> "cmpi", n |-> CmpName(Of(NC, g), "u")]
     ELSE IF In(FC, g) THEN [c |-> "cmpf", n |-> CmpFName(Of(FC, g))]
     ELSE [c |-> "lib", n |-> g]])

\* a Nat that counts bytes; byte strings here are far shorter than 2^16
Small(v) == v.b[3] = 0 /\ v.b[4] = 0
NatOf(v) == v.b[1] + 256 * v.b[2]
NatV(n) == IntV(<<n % 256, (n \div 256) % 256, 0, 0>>)
\* <<>> stands for a trap
LibRes(g, a) ==
  CASE g = "__tribute_bytes_len" -> <<NatV(Len(a[1].b))>>
    [] g = "__bytes_get_or_panic" ->
         IF ~Small(a[2]) \/ NatOf(a[2]) >= Len(a[1].b) THEN <<>> ELSE <<NatV(a[1].b[NatOf(a[2]) + 1])>>
    [] g = "__tribute_bytes_concat" -> <<BytesV(a[1].b \o a[2].b)>>
    [] g = "__tribute_bytes_slice_or_panic" ->
         IF ~Small(a[3]) \/ NatOf(a[3]) > Len(a[1].b) \/ ~Small(a[2]) \/ NatOf(a[2]) > NatOf(a[3]) THEN <<>>
         ELSE <<BytesV(SubSeq(a[1].b, NatOf(a[2]) + 1, NatOf(a[3])))>>
    [] g = "__tribute_bytes_range_equal" ->
         LET ok(x, s) == Small(s) /\ Small(a[5]) /\ NatOf(s) + NatOf(a[5]) <= Len(x.b)
             at(x, s) == SubSeq(x.b, NatOf(s) + 1, NatOf(s) + NatOf(a[5])) IN
         <<IntV(BoolW(ok(a[1], a[2]) /\ ok(a[3], a[4]) /\ at(a[1], a[2]) = at(a[3], a[4])))>>
    [] g = Prepend -> <<ListV(<<a[1]>> \o a[2].s)>>
    [] g = "std::io::__tribute_io_write" -> <<NilV>>
    [] OTHER -> <<>>
\* adjacent writes are one
Written(out, b) ==
  IF b = <<>> THEN out
  ELSE IF out # <<>> /\ out[Len(out)][1] = "write"
       THEN [out EXCEPT ![Len(out)] = <<"write", @[2] \o b>>]
       ELSE Append(out, <<"write", b>>)
BuiltinCall(m, op, g, a, Ret(_, _)) ==
  LET B == Builtins[g]
      r == CASE B.c = "int" -> IF DivTraps(B.n, a[1].b, a[2].b) THEN <<>> ELSE <<IntV(IntBin(B.n, a[1].b, a[2].b))>>
             [] B.c = "flt" -> <<FltBin(B.n, a[1], a[2])>>
             [] B.c = "cmpi" -> <<IntV(BoolW(CmpI(B.n, a[1].b, a[2].b)))>>
             [] B.c = "cmpf" -> <<IntV(BoolW(CmpF(B.n, a[1], a[2])))>>
             [] OTHER -> LibRes(g, a)
      m1 == IF g = "std::io::__tribute_io_write"
            THEN [m EXCEPT !.out = Written(@, a[1].b \o (IF Truthy(a[2]) THEN <<10>> ELSE <<>>))]
            ELSE m IN
  IF r = <<>> THEN Trap(m) ELSE Ret(m1, r)

DoCall(P, m, op, g, args, tail) ==
  IF ~(g \in DOMAIN P.funcs) /\ ~(g \in SpecialPrepend) THEN Stuck(m)
  ELSE IF IF g \in DOMAIN P.funcs THEN P.funcs[g].ext /\ g \in DOMAIN Builtins ELSE TRUE
  THEN BuiltinCall(m, op, IF g \in SpecialPrepend THEN Prepend ELSE g, args,
                   LAMBDA m1, r : IF tail THEN RetTo(P, m1, r) ELSE Adv(m1, op, r))
  ELSE IF P.funcs[g].ext
  THEN IF tail THEN [m EXCEPT !.st = "stuck"] ELSE ExtCall(P, m, op, g, args)
  ELSE IF Len(P.funcs[g].blocks[P.funcs[g].entry].args) # Len(args) THEN Stuck(m)
  ELSE IF tail
  THEN [m EXCEPT !.fr = Append(SubSeq(@, 1, Len(@) - 1), NewFrame(P, g, args))]
  ELSE [m EXCEPT !.fr = Append(@, NewFrame(P, g, args))]

\* leave the innermost structured context, delivering vs to its op's results
LeaveTo(P, m, cs, vs) ==
  LET f == Top(m)
      c == cs[Len(cs)]
      op == P.funcs[f.f].blocks[c.b].ops[c.i]
      k == Len(op.r) IN
  SetTop(m, [f EXCEPT !.env = Bind(@, op.r, SubSeq(vs, 1, k)), !.b = c.b, !.i = c.i + 1,
                      !.cs = SubSeq(cs, 1, Len(cs) - 1)])
RECURSIVE UnwindToLoop(_)
UnwindToLoop(cs) == IF cs = <<>> \/ cs[Len(cs)].k = "loop" THEN cs ELSE UnwindToLoop(SubSeq(cs, 1, Len(cs) - 1))
EnterRegion(P, m, kind, region, args) ==
  LET f == Top(m)
      m1 == SetTop(m, [f EXCEPT !.cs = Append(@, [k |-> kind, b |-> f.b, i |-> f.i])]) IN
  Goto(P, m1, region[1], args)

\* scf.switch: the body block holds scf.case / scf.default ops
SwitchRegion(P, m, op) ==
  LET f == Top(m)
      body == P.funcs[f.f].blocks[op.rg[1][1]].ops
      d == Val(f, op.o[1])
      hits == {j \in 1..Len(body) : body[j].n = "scf.case" /\ body[j].a.v = d.b}
      defs == {j \in 1..Len(body) : body[j].n = "scf.default"}
      Min(S) == CHOOSE x \in S : \A y \in S : x <= y
      Max(S) == CHOOSE x \in S : \A y \in S : x >= y IN
  IF hits # {} THEN body[Min(hits)].rg[1]
  ELSE IF defs # {} THEN body[Max(defs)].rg[1] ELSE <<>>

----------------------------------------------------------------------------
(* Heap (adt dialect): objects are [tag, fs]; aliasing is observable        *)
Alloc(m, tag, fs) == [m EXCEPT !.heap = Append(@, [tag |-> tag, fs |-> fs])]
Obj(m, v) == m.heap[v.a]

----------------------------------------------------------------------------
BoxNames == {"tribute_rt.box_int", "tribute_rt.box_nat", "tribute_rt.box_float", "tribute_rt.box_bool"}
UnboxNames == {"tribute_rt.unbox_int", "tribute_rt.unbox_nat", "tribute_rt.unbox_float", "tribute_rt.unbox_bool"}

(* Classes of operations; one named action per class in the specification   *)
Class(op) ==
  CASE op.n = "arith.const" -> "Const"
    [] op.n \in IntBinNames -> "IntBin"
    [] op.n \in {"arith.negi", "arith.negf"} -> "Neg"
    [] op.n \in FltBinNames -> "FltBin"
    [] op.n \in {"arith.cmpi", "arith.cmpf"} -> "Cmp"
    [] op.n \in ConvNames -> "Conv"
    [] op.n \in {"core.unrealized_conversion_cast"} -> "Cast"
    [] op.n \in {"func.call", "func.tail_call"} -> "Call"
    [] op.n \in {"func.call_indirect", "func.tail_call_indirect"} -> "CallInd"
    [] op.n = "func.constant" -> "FuncConst"
    [] op.n = "func.return" -> "Return"
    [] op.n \in {"func.unreachable"} -> "Unreachable"
    [] op.n = "cf.br" -> "Br"
    [] op.n = "cf.cond_br" -> "CondBr"
    [] op.n = "scf.if" -> "If"
    [] op.n = "scf.loop" -> "Loop"
    [] op.n = "scf.switch" -> "Switch"
    [] op.n \in {"scf.yield"} -> "Yield"
    [] op.n \in {"scf.continue"} -> "Continue"
    [] op.n \in {"scf.break"} -> "Break"
    [] op.n \in {"adt.struct_new", "adt.struct_get", "adt.struct_set"} -> "Struct"
    [] op.n \in {"adt.variant_new", "adt.variant_is", "adt.variant_cast", "adt.variant_get"} -> "Variant"
    [] op.n \in {"adt.ref_null", "adt.ref_is_null", "adt.ref_cast"} -> "Ref"
    [] op.n \in BoxNames \cup UnboxNames -> "Box"
    [] op.n \in {"list.empty", "list.prepend", "list.is_empty", "list.head", "list.tail"} -> "List"
    [] op.n = "adt.bytes_const" -> "Bytes"
    [] OTHER -> "Unknown"

\* lists: looking into an empty one traps
StepList(m, op, vs) ==
  CASE op.n = "list.empty" -> Adv(m, op, <<ListV(<<>>)>>)
    [] op.n = "list.prepend" -> IF vs[2].k # "li" THEN Stuck(m) ELSE Adv(m, op, <<ListV(<<vs[1]>> \o vs[2].s)>>)
    [] vs[1].k # "li" -> Stuck(m)
    [] op.n = "list.is_empty" -> Adv(m, op, <<IntV(BoolW(vs[1].s = <<>>))>>)
    [] vs[1].s = <<>> -> Trap(m)
    [] op.n = "list.head" -> Adv(m, op, <<vs[1].s[1]>>)
    [] op.n = "list.tail" -> Adv(m, op, <<ListV(Tail(vs[1].s))>>)

\* boxing of primitives: an immutable one-field object
StepBox(m, op, f) ==
  LET v == Val(f, op.o[1]) IN
  IF op.n \in BoxNames THEN Adv(Alloc(m, "box", <<v>>), op, <<PtrV(Len(m.heap) + 1)>>)
  ELSE IF v.k # "p" THEN Trap(m)
  ELSE IF Obj(m, v).tag # "box" THEN Stuck(m) ELSE Adv(m, op, <<Obj(m, v).fs[1]>>)
StepStruct(m, op, f) ==
  CASE op.n = "adt.struct_new" ->
         Adv(Alloc(m, "", Vals(f, op.o)), op, <<PtrV(Len(m.heap) + 1)>>)
    [] op.n = "adt.struct_get" ->
         LET v == Val(f, op.o[1]) IN
         IF v.k # "p" THEN Trap(m) ELSE IF op.a.field + 1 > Len(Obj(m, v).fs) THEN Stuck(m)
         ELSE Adv(m, op, <<Obj(m, v).fs[op.a.field + 1]>>)
    [] op.n = "adt.struct_set" ->
         LET v == Val(f, op.o[1]) IN
         IF v.k # "p" THEN Trap(m)
         ELSE Adv([m EXCEPT !.heap[v.a].fs[op.a.field + 1] = Val(f, op.o[2])], op, <<>>)
StepVariant(m, op, f) ==
  CASE op.n = "adt.variant_new" ->
         Adv(Alloc(m, op.a.tag, Vals(f, op.o)), op, <<PtrV(Len(m.heap) + 1)>>)
    [] op.n = "adt.variant_is" ->
         LET v == Val(f, op.o[1]) IN
         IF v.k # "p" THEN Trap(m) ELSE Adv(m, op, <<IntV(BoolW(Obj(m, v).tag = op.a.tag))>>)
    [] op.n = "adt.variant_cast" -> Adv(m, op, <<Val(f, op.o[1])>>)
    [] op.n = "adt.variant_get" ->
         LET v == Val(f, op.o[1]) IN
         IF v.k # "p" THEN Trap(m) ELSE IF op.a.field + 1 > Len(Obj(m, v).fs) THEN Stuck(m)
         ELSE Adv(m, op, <<Obj(m, v).fs[op.a.field + 1]>>)
StepRef(m, op, f) ==
  CASE op.n = "adt.ref_null" -> Adv(m, op, <<NullV>>)
    [] op.n = "adt.ref_is_null" -> Adv(m, op, <<IntV(BoolW(Val(f, op.o[1]).k = "null"))>>)
    [] op.n = "adt.ref_cast" -> Adv(m, op, <<Val(f, op.o[1])>>)

\* operands of the kinds the operation works on (a program that breaks this is stuck)
KindsOk(op, c, vs) ==
  CASE c \in {"IntBin", "If", "CondBr", "Switch"} -> \A j \in 1..Len(vs) : vs[j].k = "i"
    [] c = "FltBin" -> \A j \in 1..Len(vs) : vs[j].k \in {"f", "inf", "nan"}
    [] op.n \in {"arith.cmpi", "arith.negi"} -> \A j \in 1..Len(vs) : vs[j].k = "i"
    [] op.n \in {"arith.cmpf", "arith.negf"} -> \A j \in 1..Len(vs) : vs[j].k \in {"f", "inf", "nan"}
    [] c = "Conv" -> IF IsIntTy(op.ot[1]) THEN vs[1].k = "i" /\ Len(vs[1].b) = TyBytes(op.ot[1])
                     ELSE IF IsFltTy(op.ot[1]) THEN vs[1].k \in {"f", "inf", "nan"} ELSE TRUE
    [] OTHER -> TRUE
WidthsOk(op, c, vs) ==
  CASE c = "IntBin" \/ op.n = "arith.cmpi" -> Len(vs) = 2 /\ Len(vs[1].b) = Len(vs[2].b)
    [] OTHER -> TRUE

StepOp(P, m) ==
  LET f == Top(m) IN
  IF AtEnd(P, m) THEN Stuck(m)
  \* a use that no definition reached
  ELSE IF \E j \in 1..Len(CurOp(P, m).o) : f.env[CurOp(P, m).o[j]].k = "undef" THEN Stuck(m)
  ELSE LET op == CurOp(P, m)
           c == Class(op)
           vs == Vals(f, op.o) IN
  IF ~KindsOk(op, c, vs) THEN Stuck(m) ELSE IF ~WidthsOk(op, c, vs) THEN Stuck(m) ELSE
  CASE c = "Const" -> Adv(m, op, <<ConstV(op)>>)
    [] c = "IntBin" ->
         IF DivTraps(op.n, vs[1].b, vs[2].b) THEN Trap(m)
         ELSE Adv(m, op, <<IntV(Norm(op.t[1], IntBin(op.n, vs[1].b, vs[2].b)))>>)
    [] c = "Neg" -> Adv(m, op, << IF op.n = "arith.negi" THEN IntV(Norm(op.t[1], WNeg(vs[1].b)))
                                   ELSE FltNeg(vs[1]) >>)
    [] c = "FltBin" -> Adv(m, op, <<FltBin(op.n, vs[1], vs[2])>>)
    [] c = "Cmp" -> Adv(m, op, << IntV(WZext(BoolW(IF op.n = "arith.cmpi" THEN CmpI(op.a.p, vs[1].b, vs[2].b)
                                                   ELSE CmpF(op.a.p, vs[1], vs[2])),
                                             TyBytes(op.t[1]))) >>)
    [] c = "Conv" -> IF ConvTraps(op.ot[1], op.t[1], vs[1]) THEN Trap(m) ELSE Adv(m, op, <<Conv(op.ot[1], op.t[1], vs[1])>>)
    [] c = "Cast" -> Adv(m, op, vs)
    [] c = "FuncConst" -> Adv(m, op, <<FunV(op.a.f)>>)
    [] c = "Call" -> DoCall(P, m, op, op.a.f, vs, op.n = "func.tail_call")
    [] c = "CallInd" -> IF vs[1].k # "fn" THEN Stuck(m)
                        ELSE DoCall(P, m, op, vs[1].s, SubSeq(vs, 2, Len(vs)), op.n = "func.tail_call_indirect")
    [] c = "Return" -> RetTo(P, m, vs)
    [] c = "Unreachable" -> Trap(m)
    [] c = "Br" -> Goto(P, m, op.s[1], vs)
    [] c = "CondBr" -> Goto(P, m, op.s[IF Truthy(vs[1]) THEN 1 ELSE 2], <<>>)
    [] c = "If" -> EnterRegion(P, m, "if", op.rg[IF Truthy(vs[1]) THEN 1 ELSE 2], <<>>)
    [] c = "Loop" -> EnterRegion(P, m, "loop", op.rg[1], vs)
    [] c = "Switch" -> LET R == SwitchRegion(P, m, op) IN
                       IF R = <<>> THEN Adv(m, op, <<>>) ELSE EnterRegion(P, m, "switch", R, <<>>)
    [] c = "Yield" -> IF f.cs = <<>> THEN Stuck(m) ELSE LeaveTo(P, m, f.cs, vs)
    [] c = "Break" -> IF UnwindToLoop(f.cs) = <<>> THEN Stuck(m) ELSE LeaveTo(P, m, UnwindToLoop(f.cs), vs)
    [] c = "Continue" ->
         IF UnwindToLoop(f.cs) = <<>> THEN Stuck(m) ELSE
         LET cs == UnwindToLoop(f.cs)
             l == cs[Len(cs)]
             lop == P.funcs[f.f].blocks[l.b].ops[l.i] IN
         Goto(P, SetTop(m, [f EXCEPT !.cs = cs]), lop.rg[1][1], vs)
    [] c = "Struct" -> StepStruct(m, op, f)
    [] c = "Variant" -> StepVariant(m, op, f)
    [] c = "Ref" -> StepRef(m, op, f)
    [] c = "Box" -> StepBox(m, op, f)
    [] c = "List" -> StepList(m, op, vs)
    [] c = "Bytes" -> Adv(m, op, <<BytesV(op.a.bytes)>>)
    [] OTHER -> Stuck(m)

StartM(P, g, args) ==
  [st |-> "run", fr |-> <<NewFrame(P, g, args)>>, heap |-> <<>>, out |-> <<>>, rv |-> <<>>]

----------------------------------------------------------------------------
(* Static typing: what every transformation must maintain *)
FuncTy(F) == LET RECURSIVE Join(_)
                 Join(q) == IF q = <<>> THEN "" ELSE "," \o Head(q) \o Join(Tail(q)) IN
             "core.func(" \o F.rt \o Join(F.pt) \o ")"
TypedOp(P, F, op) ==
  CASE op.n \in IntBinNames \cup FltBinNames -> op.ot = <<op.t[1], op.t[1]>>
    [] op.n \in {"arith.negi", "arith.negf"} -> op.ot = <<op.t[1]>>
    [] op.n \in {"arith.cmpi", "arith.cmpf"} -> Len(op.ot) = 2 /\ op.ot[1] = op.ot[2]
    [] op.n = "func.call" -> op.a.f \in DOMAIN P.funcs /\ op.ot = P.funcs[op.a.f].pt /\ op.t = <<P.funcs[op.a.f].rt>>
    [] op.n = "func.tail_call" -> op.a.f \in DOMAIN P.funcs /\ op.ot = P.funcs[op.a.f].pt /\ F.rt = P.funcs[op.a.f].rt
    [] op.n = "func.constant" -> op.a.f \in DOMAIN P.funcs /\ op.t = <<FuncTy(P.funcs[op.a.f])>>
    [] op.n = "func.return" -> op.ot = (IF F.rt = "core.nil" THEN <<>> ELSE <<F.rt>>)
    [] op.n = "cf.br" -> op.ot = F.blocks[op.s[1]].at
    [] op.n = "cf.cond_br" -> /\ op.ot = <<"core.i1">>
                             /\ F.blocks[op.s[1]].at = <<>> /\ F.blocks[op.s[2]].at = <<>>
    [] op.n = "scf.if" -> op.ot = <<"core.i1">>
    [] op.n = "scf.loop" -> op.ot = F.blocks[op.rg[1][1]].at
    [] OTHER -> TRUE
\* a yield delivers values of the types the structured op's results have
YieldOk(F, op, r) ==
  \A j \in 1..Len(op.rg[r]) :
    LET ops == F.blocks[op.rg[r][j]].ops IN
    (ops # <<>> /\ ops[Len(ops)].n = "scf.yield") =>
        \/ op.t = <<>>
        \/ ops[Len(ops)].ot = op.t
TypedFunc(P, F) ==
  /\ (F.ext \/ F.blocks = <<>> \/ F.blocks[F.entry].at = F.pt)
  /\ (~F.ext => \A b \in 1..Len(F.blocks) : \A i \in 1..Len(F.blocks[b].ops) :
        LET op == F.blocks[b].ops[i] IN
        /\ TypedOp(P, F, op)
        /\ (op.n = "scf.if" => YieldOk(F, op, 1) /\ YieldOk(F, op, 2)))
WellTyped(P) == \A g \in DOMAIN P.funcs : TypedFunc(P, P.funcs[g])

\* a program without its entry function (the compiler lost it) is stuck
Start(P, g, args) ==
  IF g \in DOMAIN P.funcs THEN StartM(P, g, args)
  ELSE [st |-> "stuck", fr |-> <<>>, heap |-> <<>>, out |-> <<>>, rv |-> <<>>]

\* what a user can see of a finished run
Outcome(m) == [st |-> m.st, out |-> m.out, rv |-> IF m.st = "done" THEN m.rv ELSE <<>>]
=============================================================================
