------------------------------ MODULE IrGraph ------------------------------
(* The IR as a graph: operations with operands, results, regions and        *)
(* successors; blocks with arguments and operations; regions with blocks.   *)
(* A state is a record [ops, blocks, regs, vals]; Apply gives, for every    *)
(* mutation the library offers, the state after it, or Refused when the     *)
(* call must be refused.  Who uses a value is not part of the state: it is  *)
(* derived from the operands, which is what every use list has to mirror.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Refused == [refused |-> TRUE]
Empty == [ops |-> <<>>, blocks |-> <<>>, regs |-> <<>>, vals |-> <<>>]

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InsertSeq(s, i, t) == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i, Len(s))
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Distinct(s) == Cardinality(Range(s)) = Len(s)
Ids(from, n) == [i \in 1..n |-> from + i]

LiveOp(S, o) == S.ops[o].dead = 0
UsesOf(S, v) == {<<o, i>> \in UNION {{<<o, i>> : i \in 1..Len(S.ops[o].opnd)} : o \in {p \in 1..Len(S.ops) : LiveOp(S, p)}} :
                    S.ops[o].opnd[i] = v}

\* everything inside an operation / a region, in the order of the text
RECURSIVE TreeOps(_, _), TreeRegs(_, _)
BlocksOf(S, r) == S.regs[r].bl
OpsIn(S, r) == FlattenSeq([b \in 1..Len(BlocksOf(S, r)) |-> S.blocks[BlocksOf(S, r)[b]].ops])
RegOps(S, r) == FlattenSeq([j \in 1..Len(OpsIn(S, r)) |-> TreeOps(S, OpsIn(S, r)[j])])
TreeOps(S, o) == <<o>> \o FlattenSeq([j \in 1..Len(S.ops[o].rg) |-> RegOps(S, S.ops[o].rg[j])])
RegRegs(S, r) == <<r>> \o FlattenSeq([j \in 1..Len(OpsIn(S, r)) |-> TreeRegs(S, OpsIn(S, r)[j])])
TreeRegs(S, o) == FlattenSeq([j \in 1..Len(S.ops[o].rg) |-> RegRegs(S, S.ops[o].rg[j])])

\* --- plain mutations --------------------------------------------------------
NewVals(k, at, tys) == [i \in 1..Len(tys) |-> [dead |-> 0, k |-> k, at |-> at, i |-> i, ty |-> tys[i]]]

CreateOp(S, nm, tag, opnd, rty, rg, su) ==
    IF ~Distinct(rg) \/ \E i \in 1..Len(rg) : S.regs[rg[i]].po # 0 THEN Refused
    ELSE LET o == Len(S.ops) + 1
             S1 == [S EXCEPT !.regs = [r \in 1..Len(@) |-> IF Has(rg, r) THEN [@[r] EXCEPT !.po = o] ELSE @[r]]]
         IN [S1 EXCEPT !.ops = Append(@, [dead |-> 0, nm |-> nm, tag |-> tag, opnd |-> opnd,
                                          res |-> Ids(Len(S.vals), Len(rty)), rty |-> rty, rg |-> rg, su |-> su, pb |-> 0]),
                       !.vals = @ \o NewVals("r", o, rty)]
CreateBlock(S, aty) ==
    LET b == Len(S.blocks) + 1
    IN [S EXCEPT !.blocks = Append(@, [dead |-> 0, args |-> Ids(Len(S.vals), Len(aty)), aty |-> aty, ops |-> <<>>, pr |-> 0]),
                 !.vals = @ \o NewVals("a", b, aty)]
CreateRegion(S, bl) ==
    IF ~Distinct(bl) \/ \E i \in 1..Len(bl) : S.blocks[bl[i]].pr # 0 THEN Refused
    ELSE LET r == Len(S.regs) + 1
         IN [S EXCEPT !.regs = Append(@, [dead |-> 0, bl |-> bl, po |-> 0]),
                      !.blocks = [b \in 1..Len(@) |-> IF Has(bl, b) THEN [@[b] EXCEPT !.pr = r] ELSE @[b]]]
PushOp(S, b, o) == IF S.ops[o].pb # 0 THEN Refused
                   ELSE [S EXCEPT !.ops[o].pb = b, !.blocks[b].ops = Append(@, o)]
InsertBefore(S, b, o, bf) ==
    IF S.ops[o].pb # 0 \/ ~Has(S.blocks[b].ops, bf) THEN Refused
    ELSE [S EXCEPT !.ops[o].pb = b, !.blocks[b].ops = InsertSeq(@, IndexOf(@, bf), <<o>>)]
RemoveFromBlock(S, b, o) == [S EXCEPT !.blocks[b].ops = Without(@, o), !.ops[o].pb = IF @ = b THEN 0 ELSE @]
Detach(S, o) == IF S.ops[o].pb = 0 THEN S ELSE RemoveFromBlock(S, S.ops[o].pb, o)
Used(S, o) == \E i \in 1..Len(S.ops[o].res) : UsesOf(S, S.ops[o].res[i]) # {}
RemoveOp(S, o) ==
    IF S.ops[o].pb # 0 \/ Used(S, o) THEN Refused
    ELSE LET os == Range(TreeOps(S, o))
             rs == Range(TreeRegs(S, o))
             bs == UNION {Range(S.regs[r].bl) : r \in rs}
             Kill(s, d) == [i \in 1..Len(s) |-> IF i \in d THEN [dead |-> 1] ELSE s[i]]
             dv == {v \in 1..Len(S.vals) : S.vals[v].dead = 0 /\ ((S.vals[v].k = "r" /\ S.vals[v].at \in os) \/ (S.vals[v].k = "a" /\ S.vals[v].at \in bs))}
         IN [ops |-> Kill(S.ops, os), blocks |-> Kill(S.blocks, bs), regs |-> Kill(S.regs, rs), vals |-> Kill(S.vals, dv)]
EraseOp(S, o) == RemoveOp(Detach(S, o), o)
SetOperand(S, o, i, v) == [S EXCEPT !.ops[o].opnd[i] = v]
PushOperand(S, o, v) == [S EXCEPT !.ops[o].opnd = Append(@, v)]
RemoveOperand(S, o, i) == IF i > Len(S.ops[o].opnd) THEN Refused
                          ELSE [S EXCEPT !.ops[o].opnd = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
SetResultType(S, o, i, t) == [S EXCEPT !.ops[o].rty[i] = t, !.vals[S.ops[o].res[i]].ty = t]
SetArgType(S, b, i, t) == [S EXCEPT !.blocks[b].aty[i] = t, !.vals[S.blocks[b].args[i]].ty = t]
AddArg(S, b, t) ==
    LET v == Len(S.vals) + 1
        n == Len(S.blocks[b].args) + 1
    IN [S EXCEPT !.vals = Append(@, [dead |-> 0, k |-> "a", at |-> b, i |-> n, ty |-> t]),
                 !.blocks[b].args = Append(@, v), !.blocks[b].aty = Append(@, t)]
PrependArg(S, b, t) ==
    LET v == Len(S.vals) + 1
    IN [S EXCEPT !.vals = Append([w \in 1..Len(@) |-> IF Has(S.blocks[b].args, w) THEN [@[w] EXCEPT !.i = @ + 1] ELSE @[w]],
                                 [dead |-> 0, k |-> "a", at |-> b, i |-> 1, ty |-> t]),
                 !.blocks[b].args = <<v>> \o @, !.blocks[b].aty = <<t>> \o @]
Rauw(S, x, y) == [S EXCEPT !.ops = [o \in 1..Len(@) |-> IF @[o].dead = 1 THEN @[o]
                                     ELSE [@[o] EXCEPT !.opnd = [i \in 1..Len(@) |-> IF @[i] = x THEN y ELSE @[i]]]]]
SplitBlock(S, b, o) ==
    IF ~Has(S.blocks[b].ops, o) \/ S.blocks[b].pr = 0 THEN Refused
    ELSE LET n == Len(S.blocks) + 1
             all == S.blocks[b].ops
             k == IndexOf(all, o)
             tail == SubSeq(all, k, Len(all))
             r == S.blocks[b].pr
         IN [S EXCEPT !.blocks = Append([@ EXCEPT ![b].ops = SubSeq(all, 1, k - 1)],
                                        [dead |-> 0, args |-> <<>>, aty |-> <<>>, ops |-> tail, pr |-> r]),
                      !.ops = [p \in 1..Len(@) |-> IF Has(tail, p) THEN [@[p] EXCEPT !.pb = n] ELSE @[p]],
                      !.regs[r].bl = InsertSeq(@, IndexOf(@, b) + 1, <<n>>)]
InlineBlocks(S, s, d, bf) ==
    IF s = d THEN S
    ELSE LET mv == S.regs[s].bl
         IN [S EXCEPT !.regs[d].bl = InsertSeq(@, IF bf = 0 THEN Len(@) + 1 ELSE IndexOf(@, bf), mv), !.regs[s].bl = <<>>,
                      !.blocks = [b \in 1..Len(@) |-> IF Has(mv, b) THEN [@[b] EXCEPT !.pr = d] ELSE @[b]]]
DetachRegion(S, r) == IF S.regs[r].po = 0 THEN S
                      ELSE [S EXCEPT !.ops[S.regs[r].po].rg = Without(@, r), !.regs[r].po = 0]

\* --- deep copies ------------------------------------------------------------
\* The copy is numbered in the order of the text: an operation, its results,
\* then for each region the region, all its blocks with their arguments, then
\* the operations of the blocks.  A number list is a sequence of <<kind, id>>.
RECURSIVE OpList(_, _), RegList(_, _)
OpList(S, o) == <<<<"o", o>>>> \o [i \in 1..Len(S.ops[o].res) |-> <<"v", S.ops[o].res[i]>>]
                \o FlattenSeq([j \in 1..Len(S.ops[o].rg) |-> RegList(S, S.ops[o].rg[j])])
RegList(S, r) == <<<<"r", r>>>>
                 \o FlattenSeq([j \in 1..Len(S.regs[r].bl) |-> LET b == S.regs[r].bl[j] IN
                                  <<<<"b", b>>>> \o [i \in 1..Len(S.blocks[b].args) |-> <<"v", S.blocks[b].args[i]>>]])
                 \o FlattenSeq([j \in 1..Len(OpsIn(S, r)) |-> OpList(S, OpsIn(S, r)[j])])
Of(l, k) == [j \in 1..Len(SelectSeq(l, LAMBDA e : e[1] = k)) |-> SelectSeq(l, LAMBDA e : e[1] = k)[j][2]]
\* pairs <<old, new>>: later pairs win
Look(ps, x) == LET h == SelectSeq(ps, LAMBDA p : p[1] = x) IN IF h = <<>> THEN x ELSE h[Len(h)][2]
Pairs(l, from) == [j \in 1..Len(l) |-> <<l[j], from + j>>]
Copy(S, l, mv, mb) ==
    LET os == TLCEval(Of(l, "o"))  bs == TLCEval(Of(l, "b"))  rs == TLCEval(Of(l, "r"))  vs == TLCEval(Of(l, "v"))
        MO == TLCEval(Pairs(os, Len(S.ops)))    MB == TLCEval(Pairs(bs, Len(S.blocks)))
        MR == TLCEval(Pairs(rs, Len(S.regs)))   MV == TLCEval(Pairs(vs, Len(S.vals)))
        \* inside the copy: the copy; outside: what the caller asked for
        Val(v) == IF Has(vs, v) THEN Look(MV, v) ELSE Look(mv, v)
        Blk(b) == IF Has(bs, b) THEN Look(MB, b) ELSE Look(mb, b)
        Mp(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
        NewOp(o) == LET d == S.ops[o] IN
            [d EXCEPT !.opnd = Mp(@, Val), !.su = Mp(@, Blk), !.res = Mp(@, Val),
                      !.rg = [i \in 1..Len(@) |-> Look(MR, @[i])],
                      !.pb = IF Has(bs, @) THEN Look(MB, @) ELSE 0]
        NewBlock(b) == LET d == S.blocks[b] IN
            [d EXCEPT !.args = Mp(@, Val), !.ops = [i \in 1..Len(@) |-> Look(MO, @[i])], !.pr = IF Has(rs, @) THEN Look(MR, @) ELSE 0]
        NewReg(r) == LET d == S.regs[r] IN
            [d EXCEPT !.bl = [i \in 1..Len(@) |-> Look(MB, @[i])], !.po = IF Has(os, @) THEN Look(MO, @) ELSE 0]
        NewVal(v) == LET d == S.vals[v] IN [d EXCEPT !.at = IF d.k = "r" THEN Look(MO, @) ELSE Look(MB, @)]
    IN [ops |-> S.ops \o Mp(os, NewOp), blocks |-> S.blocks \o Mp(bs, NewBlock),
        regs |-> S.regs \o Mp(rs, NewReg), vals |-> S.vals \o Mp(vs, NewVal)]
CloneOp(S, o, b, mv, mb) == LET T == TLCEval(Copy(S, OpList(S, o), mv, mb))
                            IN IF b = 0 THEN T ELSE PushOp(T, b, Len(S.ops) + 1)
CloneRegion(S, r, mv, mb) == Copy(S, RegList(S, r), mv, mb)

Apply(S, x) ==
    CASE x.a = "create_op" -> CreateOp(S, x.nm, x.tag, x.opnd, x.rty, x.rg, x.su)
      [] x.a = "create_block" -> CreateBlock(S, x.aty)
      [] x.a = "create_region" -> CreateRegion(S, x.bl)
      [] x.a = "push_op" -> PushOp(S, x.b, x.o)
      [] x.a = "insert_op_before" -> InsertBefore(S, x.b, x.o, x.bf)
      [] x.a = "remove_op_from_block" -> RemoveFromBlock(S, x.b, x.o)
      [] x.a = "detach_op" -> Detach(S, x.o)
      [] x.a = "remove_op" -> RemoveOp(S, x.o)
      [] x.a = "erase_op" -> EraseOp(S, x.o)
      [] x.a = "set_operand" -> SetOperand(S, x.o, x.i, x.v)
      [] x.a = "push_operand" -> PushOperand(S, x.o, x.v)
      [] x.a = "remove_operand" -> RemoveOperand(S, x.o, x.i)
      [] x.a = "set_result_type" -> SetResultType(S, x.o, x.i, x.t)
      [] x.a = "set_arg_type" -> SetArgType(S, x.b, x.i, x.t)
      [] x.a = "add_arg" -> AddArg(S, x.b, x.t)
      [] x.a = "prepend_arg" -> PrependArg(S, x.b, x.t)
      [] x.a = "rauw" -> Rauw(S, x.x, x.y)
      [] x.a = "split_block" -> SplitBlock(S, x.b, x.o)
      [] x.a = "inline_blocks" -> InlineBlocks(S, x.s, x.d, x.bf)
      [] x.a = "detach_region" -> DetachRegion(S, x.r)
      [] x.a = "clone_op" -> CloneOp(S, x.o, x.b, x.mv, x.mb)
      [] x.a = "clone_region" -> CloneRegion(S, x.r, x.mv, x.mb)

\* --- integrity of a state ---------------------------------------------------
Alive(s) == {i \in 1..Len(s) : s[i].dead = 0}
ParentsMirror(S) ==
    /\ \A o \in Alive(S.ops) : \A b \in Alive(S.blocks) : (S.ops[o].pb = b) <=> Has(S.blocks[b].ops, o)
    /\ \A b \in Alive(S.blocks) : Distinct(S.blocks[b].ops)
    /\ \A b \in Alive(S.blocks) : \A r \in Alive(S.regs) : (S.blocks[b].pr = r) <=> Has(S.regs[r].bl, b)
    /\ \A r \in Alive(S.regs) : \A o \in Alive(S.ops) : (S.regs[r].po = o) <=> Has(S.ops[o].rg, r)
    /\ \A r \in Alive(S.regs) : Distinct(S.regs[r].bl)
DefsMirror(S) ==
    /\ \A o \in Alive(S.ops) : Len(S.ops[o].res) = Len(S.ops[o].rty) /\
         \A i \in 1..Len(S.ops[o].res) : LET v == S.vals[S.ops[o].res[i]] IN v.k = "r" /\ v.at = o /\ v.i = i /\ v.ty = S.ops[o].rty[i]
    /\ \A b \in Alive(S.blocks) : Len(S.blocks[b].args) = Len(S.blocks[b].aty) /\
         \A i \in 1..Len(S.blocks[b].args) : LET v == S.vals[S.blocks[b].args[i]] IN v.k = "a" /\ v.at = b /\ v.i = i /\ v.ty = S.blocks[b].aty[i]
NoDangling(S) == \A o \in Alive(S.ops) : \A i \in 1..Len(S.ops[o].opnd) : S.vals[S.ops[o].opnd[i]].dead = 0
=============================================================================
