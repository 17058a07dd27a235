//! Random histories of mutations of an `IrContext`, recorded with the state
//! observed after every step, for IrGraph.tla.
use crate::equiv::quiet;
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use trunk_ir::context::*;
use trunk_ir::ir_mapping::IrMapping;
use trunk_ir::location::Span;
use trunk_ir::refs::*;
use trunk_ir::rewrite::helpers;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
use trunk_ir::Symbol;

/// A second attribute that goes with a tag: attributes of every kind are carried along.
fn extra(tag: i64) -> Attribute {
    match tag % 7 {
        0 => Attribute::Unit,
        1 => Attribute::Bool(tag % 2 == 0),
        2 => Attribute::FloatBits(tag as u64),
        3 => Attribute::String(format!("t{tag}")),
        4 => Attribute::Bytes([tag as u8, 0, 255].into_iter().collect()),
        5 => Attribute::Symbol(Symbol::from_dynamic(&format!("s{tag}"))),
        _ => Attribute::List(vec![Attribute::Int(-tag as i128), Attribute::List(vec![Attribute::Bool(true)])]),
    }
}

struct W {
    ctx: IrContext,
    loc: Location,
    tys: Vec<TypeRef>,
    ops: Vec<OpRef>,
    blocks: Vec<BlockRef>,
    regs: Vec<RegionRef>,
    vals: Vec<ValueRef>,
    om: HashMap<OpRef, usize>,
    bm: HashMap<BlockRef, usize>,
    rm: HashMap<RegionRef, usize>,
    vm: HashMap<ValueRef, usize>,
    dead_o: Vec<bool>,
    dead_b: Vec<bool>,
    dead_r: Vec<bool>,
}

const NAMES: [(&str, &str); 3] = [("test", "a"), ("arith", "addi"), ("core", "x")];

impl W {
    fn new() -> W {
        let mut ctx = IrContext::new();
        let path = ctx.paths.intern("vp.trb".to_owned());
        let loc = Location::new(path, Span::new(0, 0));
        let tys = ["i1", "i32", "i64"].iter().map(|n| ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new(n)).build())).collect();
        W { ctx, loc, tys, ops: vec![], blocks: vec![], regs: vec![], vals: vec![], om: Default::default(), bm: Default::default(), rm: Default::default(), vm: Default::default(), dead_o: vec![], dead_b: vec![], dead_r: vec![] }
    }
    // numbering of entities by the harness (1-based in the record)
    fn reg_val(&mut self, v: ValueRef) {
        if !self.vm.contains_key(&v) {
            self.vals.push(v);
            self.vm.insert(v, self.vals.len());
        }
    }
    fn reg_op(&mut self, o: OpRef) {
        self.ops.push(o);
        self.dead_o.push(false);
        self.om.insert(o, self.ops.len());
        for v in self.ctx.op_results(o).to_vec() {
            self.reg_val(v);
        }
    }
    fn reg_block(&mut self, b: BlockRef) {
        self.blocks.push(b);
        self.dead_b.push(false);
        self.bm.insert(b, self.blocks.len());
        for v in self.ctx.block_args(b).to_vec() {
            self.reg_val(v);
        }
    }
    fn reg_region(&mut self, r: RegionRef) {
        self.regs.push(r);
        self.dead_r.push(false);
        self.rm.insert(r, self.regs.len());
    }
    fn reg_tree_op(&mut self, o: OpRef) {
        self.reg_op(o);
        for r in self.ctx.op(o).regions.to_vec() {
            self.reg_tree_region(r);
        }
    }
    fn reg_tree_region(&mut self, r: RegionRef) {
        self.reg_region(r);
        let bs = self.ctx.region(r).blocks.to_vec();
        for &b in &bs {
            self.reg_block(b);
        }
        for &b in &bs {
            for o in self.ctx.block(b).ops.to_vec() {
                self.reg_tree_op(o);
            }
        }
    }
    fn o(&self, o: OpRef) -> usize {
        self.om.get(&o).copied().unwrap_or(9999)
    }
    fn b(&self, b: BlockRef) -> usize {
        self.bm.get(&b).copied().unwrap_or(9999)
    }
    fn r(&self, r: RegionRef) -> usize {
        self.rm.get(&r).copied().unwrap_or(9999)
    }
    fn v(&self, v: ValueRef) -> usize {
        self.vm.get(&v).copied().unwrap_or(9999)
    }
    fn t(&self, t: TypeRef) -> usize {
        self.tys.iter().position(|x| *x == t).map(|x| x + 1).unwrap_or(9999)
    }
    fn view(&self) -> Value {
        let c = &self.ctx;
        let ops: Vec<Value> = self
            .ops
            .iter()
            .enumerate()
            .map(|(i, &o)| {
                if self.dead_o[i] {
                    return json!({"dead": 1});
                }
                let d = c.op(o);
                let nm = NAMES.iter().position(|(a, b)| d.dialect == Symbol::new(a) && d.name == Symbol::new(b)).map(|x| x + 1).unwrap_or(0);
                let tag = match d.attributes.get("tag") {
                    Some(Attribute::Int(x)) if d.attributes.get("extra") == Some(&extra(*x as i64)) => *x as i64,
                    _ => -1,
                };
                json!({"dead": 0, "nm": nm, "tag": tag, "opnd": c.op_operands(o).iter().map(|v| self.v(*v)).collect::<Vec<_>>(),
                    "res": c.op_results(o).iter().map(|v| self.v(*v)).collect::<Vec<_>>(),
                    "rty": c.op_result_types(o).iter().map(|t| self.t(*t)).collect::<Vec<_>>(),
                    "rg": d.regions.iter().map(|x| self.r(*x)).collect::<Vec<_>>(),
                    "su": d.successors.iter().map(|x| self.b(*x)).collect::<Vec<_>>(),
                    "pb": d.parent_block.map(|x| self.b(x)).unwrap_or(0)})
            })
            .collect();
        let blocks: Vec<Value> = self
            .blocks
            .iter()
            .enumerate()
            .map(|(i, &b)| {
                if self.dead_b[i] {
                    return json!({"dead": 1});
                }
                let d = c.block(b);
                json!({"dead": 0, "args": c.block_args(b).iter().map(|v| self.v(*v)).collect::<Vec<_>>(),
                    "aty": d.args.iter().map(|a| self.t(a.ty)).collect::<Vec<_>>(),
                    "ops": d.ops.iter().map(|x| self.o(*x)).collect::<Vec<_>>(),
                    "pr": d.parent_region.map(|x| self.r(x)).unwrap_or(0)})
            })
            .collect();
        let regs: Vec<Value> = self
            .regs
            .iter()
            .enumerate()
            .map(|(i, &r)| {
                if self.dead_r[i] {
                    return json!({"dead": 1});
                }
                let d = c.region(r);
                json!({"dead": 0, "bl": d.blocks.iter().map(|x| self.b(*x)).collect::<Vec<_>>(), "po": d.parent_op.map(|x| self.o(x)).unwrap_or(0)})
            })
            .collect();
        // values: definition, type, uses (each use once, in a fixed order)
        let vals: Vec<Value> = self
            .vals
            .iter()
            .map(|&v| {
                let (k, w, i, dead) = match c.value_def(v) {
                    ValueDef::OpResult(o, i) => ("r", self.o(o), i, self.dead_o.get(self.o(o).wrapping_sub(1)).copied().unwrap_or(false)),
                    ValueDef::BlockArg(b, i) => ("a", self.b(b), i, self.dead_b.get(self.b(b).wrapping_sub(1)).copied().unwrap_or(false)),
                };
                if dead {
                    return json!({"dead": 1});
                }
                let mut u: Vec<(usize, u32)> = c.uses(v).iter().map(|u| (self.o(u.user), u.operand_index + 1)).collect();
                u.sort();
                json!({"dead": 0, "k": k, "at": w, "i": i + 1, "ty": self.t(c.value_ty(v)), "uses": u.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(), "has": c.has_uses(v) as i32})
            })
            .collect();
        json!({"ops": ops, "blocks": blocks, "regs": regs, "vals": vals})
    }
    // --- structure questions ---------------------------------------------------
    fn live_ops(&self) -> Vec<usize> {
        (0..self.ops.len()).filter(|i| !self.dead_o[*i]).collect()
    }
    fn live_blocks(&self) -> Vec<usize> {
        (0..self.blocks.len()).filter(|i| !self.dead_b[*i]).collect()
    }
    fn live_regs(&self) -> Vec<usize> {
        (0..self.regs.len()).filter(|i| !self.dead_r[*i]).collect()
    }
    fn live_vals(&self) -> Vec<usize> {
        (0..self.vals.len())
            .filter(|i| match self.ctx.value_def(self.vals[*i]) {
                ValueDef::OpResult(o, _) => !self.dead_o[self.o(o) - 1],
                ValueDef::BlockArg(b, _) => !self.dead_b[self.b(b) - 1],
            })
            .collect()
    }
    fn tree(&self, o: OpRef, ops: &mut Vec<OpRef>, bs: &mut Vec<BlockRef>, rs: &mut Vec<RegionRef>) {
        ops.push(o);
        for &r in &self.ctx.op(o).regions {
            self.tree_r(r, ops, bs, rs);
        }
    }
    fn tree_r(&self, r: RegionRef, ops: &mut Vec<OpRef>, bs: &mut Vec<BlockRef>, rs: &mut Vec<RegionRef>) {
        rs.push(r);
        for &b in &self.ctx.region(r).blocks {
            bs.push(b);
            for &o in &self.ctx.block(b).ops {
                self.tree(o, ops, bs, rs);
            }
        }
    }
    /// regions around an operation, innermost first
    fn around(&self, o: OpRef) -> Vec<RegionRef> {
        let mut v = vec![];
        let mut cur = self.ctx.op(o).parent_block;
        while let Some(b) = cur {
            let Some(r) = self.ctx.block(b).parent_region else { break };
            v.push(r);
            cur = self.ctx.region(r).parent_op.and_then(|o| self.ctx.op(o).parent_block);
        }
        v
    }
    /// every use inside the tree of a value defined inside is in the scope of its definition
    fn scoped(&self, ops: &[OpRef], bs: &[BlockRef], top: Option<OpRef>) -> bool {
        for &o in ops {
            let ar = self.around(o);
            for &v in self.ctx.op_operands(o) {
                let home = match self.ctx.value_def(v) {
                    ValueDef::OpResult(d, _) => {
                        if !ops.contains(&d) {
                            continue;
                        }
                        if Some(d) == top {
                            return false;
                        }
                        self.ctx.op(d).parent_block.and_then(|b| self.ctx.block(b).parent_region)
                    }
                    ValueDef::BlockArg(b, _) => {
                        if !bs.contains(&b) {
                            continue;
                        }
                        self.ctx.block(b).parent_region
                    }
                };
                match home {
                    Some(r) if ar.contains(&r) => {}
                    _ => return false,
                }
            }
            // and every branch to a block inside stays in a region around it
            for b in &self.ctx.op(o).successors {
                if bs.contains(b) && !self.ctx.block(*b).parent_region.is_some_and(|r| ar.contains(&r)) {
                    return false;
                }
            }
        }
        true
    }
}

fn history(seed: u64, len: usize) -> Value {
    let mut r = Rng::new(seed);
    // some histories use few, wide operations and blocks
    let wide = r.chance(1, 3);
    let mut w = W::new();
    let mut steps = vec![];
    let mut tag = 0i64;
    let mut tries = 0;
    while steps.len() < len && tries < len * 6 {
        tries += 1;
        let (ops, blocks, regs, vals) = (w.live_ops(), w.live_blocks(), w.live_regs(), w.live_vals());
        let grow = w.ops.len() < 16;
        let bad = steps.len() * 10 > len * 7; // calls that must be refused come late
        let pick = |r: &mut Rng, v: &Vec<usize>| -> Option<usize> { if v.is_empty() { None } else { Some(v[r.below(v.len())]) } };
        // `step` describes the call; `act` performs it and returns what to register
        let k = r.below(30);
        let mut reg: Option<Box<dyn FnOnce(&mut W)>> = None;
        let loc = w.loc;
        let (step, res): (Value, Result<(), String>) = match k {
            0..=4 if grow => {
                tag += 1;
                let n = r.below(if wide { 7 } else { 4 });
                let opnd: Vec<usize> = (0..n).filter_map(|_| pick(&mut r, &vals)).collect();
                let rty: Vec<usize> = (0..r.below(if wide { 5 } else { 3 })).map(|_| r.below(3)).collect();
                let mut rg: Vec<usize> = vec![];
                for _ in 0..(if wide { [0, 1, 3, 4, 3] } else { [0, 0, 1, 1, 2] })[r.below(5)] {
                    let free: Vec<usize> = regs.iter().copied().filter(|x| w.ctx.region(w.regs[*x]).parent_op.is_none() && !rg.contains(x)).collect();
                    let from = if bad && r.chance(1, 12) { &regs } else { &free };
                    if let Some(x) = pick(&mut r, from) {
                        rg.push(x);
                    }
                }
                let su: Vec<usize> = (0..(if wide { [0, 0, 1, 3, 4] } else { [0, 0, 0, 1, 2] })[r.below(5)]).filter_map(|_| pick(&mut r, &blocks)).collect();
                let nm = r.below(3);
                let mut bld = OperationDataBuilder::new(loc, Symbol::new(NAMES[nm].0), Symbol::new(NAMES[nm].1));
                for &v in &opnd {
                    bld = bld.operand(w.vals[v]);
                }
                for &t in &rty {
                    bld = bld.result(w.tys[t]);
                }
                for &x in &rg {
                    bld = bld.region(w.regs[x]);
                }
                for &b in &su {
                    bld = bld.successor(w.blocks[b]);
                }
                bld = bld.attr("tag", Attribute::Int(tag as i128)).attr("extra", extra(tag));
                let one = |v: &Vec<usize>| v.iter().map(|x| x + 1).collect::<Vec<_>>();
                let st = json!({"a": "create_op", "nm": nm + 1, "tag": tag, "opnd": one(&opnd), "rty": one(&rty), "rg": one(&rg), "su": one(&su)});
                let res = quiet(|| {
                    let d = bld.build(&mut w.ctx);
                    w.ctx.create_op(d)
                });
                (st, res.map(|o| reg = Some(Box::new(move |w: &mut W| w.reg_op(o)))))
            }
            5 | 6 if w.blocks.len() < (if wide { 16 } else { 12 }) => {
                let aty: Vec<usize> = (0..r.below(if wide { 5 } else { 3 })).map(|_| r.below(3)).collect();
                let b = w.ctx.create_block(BlockData { location: loc, args: aty.iter().map(|t| BlockArgData { ty: w.tys[*t], attrs: Default::default() }).collect(), ops: Default::default(), parent_region: None });
                reg = Some(Box::new(move |w: &mut W| w.reg_block(b)));
                (json!({"a": "create_block", "aty": aty.iter().map(|x| x + 1).collect::<Vec<_>>()}), Ok(()))
            }
            7 | 8 if w.regs.len() < (if wide { 14 } else { 8 }) => {
                let mut bl: Vec<usize> = vec![];
                for _ in 0..(if wide { [1, 1, 1, 2, 5][r.below(5)] } else { r.range(1, 3) }) {
                    let free: Vec<usize> = blocks.iter().copied().filter(|x| w.ctx.block(w.blocks[*x]).parent_region.is_none() && !bl.contains(x)).collect();
                    let from = if bad && r.chance(1, 20) { &blocks } else { &free };
                    if let Some(x) = pick(&mut r, from) {
                        bl.push(x);
                    }
                }
                let data = RegionData { location: loc, blocks: bl.iter().map(|b| w.blocks[*b]).collect(), parent_op: None };
                let st = json!({"a": "create_region", "bl": bl.iter().map(|x| x + 1).collect::<Vec<_>>()});
                let res = quiet(|| w.ctx.create_region(data));
                (st, res.map(|x| reg = Some(Box::new(move |w: &mut W| w.reg_region(x)))))
            }
            9..=13 => {
                let (Some(b), Some(o)) = (pick(&mut r, &blocks), pick(&mut r, &ops)) else { continue };
                if w.ctx.op(w.ops[o]).parent_block.is_some() && !(bad && r.chance(1, 10)) {
                    continue;
                }
                let (mut os, mut bs, mut rs) = (vec![], vec![], vec![]);
                w.tree(w.ops[o], &mut os, &mut bs, &mut rs);
                if bs.contains(&w.blocks[b]) {
                    continue; // an operation inside itself
                }
                let (bb, oo) = (w.blocks[b], w.ops[o]);
                let inb = w.ctx.block(bb).ops.to_vec();
                if r.chance(1, 2) || inb.is_empty() {
                    (json!({"a": "push_op", "b": b + 1, "o": o + 1}), quiet(|| w.ctx.push_op(bb, oo)))
                } else {
                    let bf = if bad && r.chance(1, 15) { w.ops[*r.pick(&ops)] } else { *r.pick(&inb) };
                    (json!({"a": "insert_op_before", "b": b + 1, "o": o + 1, "bf": w.o(bf)}), quiet(|| w.ctx.insert_op_before(bb, bf, oo)))
                }
            }
            14 => {
                let (Some(o), Some(b)) = (pick(&mut r, &ops), pick(&mut r, &blocks)) else { continue };
                let oo = w.ops[o];
                if r.chance(1, 2) {
                    (json!({"a": "detach_op", "o": o + 1}), quiet(|| w.ctx.detach_op(oo)))
                } else {
                    let bb = w.ctx.op(oo).parent_block.filter(|_| r.chance(3, 4)).unwrap_or(w.blocks[b]);
                    (json!({"a": "remove_op_from_block", "b": w.b(bb), "o": o + 1}), quiet(|| w.ctx.remove_op_from_block(bb, oo)))
                }
            }
            15 | 16 => {
                let Some(mut o) = pick(&mut r, &ops) else { continue };
                if r.chance(1, 4) {
                    // the one with most inside
                    let size = |w: &W, o: usize| {
                        let (mut os, mut bs, mut rs) = (vec![], vec![], vec![]);
                        w.tree(w.ops[o], &mut os, &mut bs, &mut rs);
                        os.len()
                    };
                    o = *ops.iter().max_by_key(|&&x| size(&w, x)).unwrap();
                }
                let oo = w.ops[o];
                let (mut os, mut bs, mut rs) = (vec![], vec![], vec![]);
                w.tree(oo, &mut os, &mut bs, &mut rs);
                // nothing outside may use what is defined inside (caller's duty)
                let inner_used = os.iter().skip(1).flat_map(|x| w.ctx.op_results(*x).to_vec()).chain(bs.iter().flat_map(|b| w.ctx.block_args(*b).to_vec())).any(|v| w.ctx.uses(v).iter().any(|u| !os.contains(&u.user)));
                let succ_used = w.live_ops().iter().any(|x| !os.contains(&w.ops[*x]) && w.ctx.op(w.ops[*x]).successors.iter().any(|b| bs.contains(b)));
                if inner_used || succ_used || (w.ctx.op_results(oo).iter().any(|v| w.ctx.has_uses(*v)) && !(bad && r.chance(1, 8))) {
                    continue;
                }
                let erase = r.chance(2, 3);
                if !erase && w.ctx.op(oo).parent_block.is_some() && !(bad && r.chance(1, 8)) {
                    continue;
                }
                let res = if erase { quiet(|| helpers::erase_op(&mut w.ctx, oo)) } else { quiet(|| w.ctx.remove_op(oo)) };
                let ids: (Vec<usize>, Vec<usize>, Vec<usize>) = (os.iter().map(|x| w.o(*x) - 1).collect(), bs.iter().map(|x| w.b(*x) - 1).collect(), rs.iter().map(|x| w.r(*x) - 1).collect());
                reg = Some(Box::new(move |w: &mut W| {
                    ids.0.iter().for_each(|i| w.dead_o[*i] = true);
                    ids.1.iter().for_each(|i| w.dead_b[*i] = true);
                    ids.2.iter().for_each(|i| w.dead_r[*i] = true);
                }));
                (json!({"a": if erase { "erase_op" } else { "remove_op" }, "o": o + 1}), res)
            }
            17 | 18 => {
                let (Some(o), Some(v)) = (pick(&mut r, &ops), pick(&mut r, &vals)) else { continue };
                let (oo, vv) = (w.ops[o], w.vals[v]);
                let n = w.ctx.op_operands(oo).len();
                match r.below(3) {
                    0 if n > 0 => {
                        let i = r.below(n);
                        (json!({"a": "set_operand", "o": o + 1, "i": i + 1, "v": v + 1}), quiet(|| w.ctx.set_op_operand(oo, i as u32, vv)))
                    }
                    1 if n < 5 => (json!({"a": "push_operand", "o": o + 1, "v": v + 1}), quiet(|| w.ctx.push_op_operand(oo, vv))),
                    _ => {
                        let i = if bad && r.chance(1, 15) { n } else if n > 0 { r.below(n) } else { continue };
                        (json!({"a": "remove_operand", "o": o + 1, "i": i + 1}), quiet(|| w.ctx.remove_op_operand(oo, i as u32)))
                    }
                }
            }
            19 => {
                let (Some(o), Some(b)) = (pick(&mut r, &ops), pick(&mut r, &blocks)) else { continue };
                let t = r.below(3);
                let ty = w.tys[t];
                let (oo, bb) = (w.ops[o], w.blocks[b]);
                let (n, m) = (w.ctx.op_results(oo).len(), w.ctx.block_args(bb).len());
                if r.chance(1, 2) && n > 0 {
                    let i = r.below(n);
                    (json!({"a": "set_result_type", "o": o + 1, "i": i + 1, "t": t + 1}), quiet(|| w.ctx.set_op_result_type(oo, i as u32, ty)))
                } else if m > 0 {
                    let i = r.below(m);
                    (json!({"a": "set_arg_type", "b": b + 1, "i": i + 1, "t": t + 1}), quiet(|| w.ctx.set_block_arg_type(bb, i as u32, ty)))
                } else {
                    continue;
                }
            }
            20 | 21 => {
                let Some(b) = pick(&mut r, &blocks) else { continue };
                let bb = w.blocks[b];
                if w.ctx.block_args(bb).len() > 4 {
                    continue;
                }
                let t = r.below(3);
                let d = BlockArgData { ty: w.tys[t], attrs: Default::default() };
                let pre = r.chance(1, 2);
                let v = if pre { w.ctx.prepend_block_arg(bb, d) } else { w.ctx.add_block_arg(bb, d) };
                reg = Some(Box::new(move |w: &mut W| w.reg_val(v)));
                (json!({"a": if pre { "prepend_arg" } else { "add_arg" }, "b": b + 1, "t": t + 1}), Ok(()))
            }
            22 | 23 => {
                let (Some(x), Some(y)) = (pick(&mut r, &vals), pick(&mut r, &vals)) else { continue };
                let (a, b) = (w.vals[x], w.vals[y]);
                (json!({"a": "rauw", "x": x + 1, "y": y + 1}), quiet(|| w.ctx.replace_all_uses(a, b)))
            }
            24 => {
                let Some(b) = pick(&mut r, &blocks) else { continue };
                let bb = w.blocks[b];
                let inb = w.ctx.block(bb).ops.to_vec();
                if inb.is_empty() || w.blocks.len() > 12 || (w.ctx.block(bb).parent_region.is_none() && !(bad && r.chance(1, 10))) {
                    continue;
                }
                let o = if bad && r.chance(1, 20) { w.ops[*r.pick(&ops)] } else { *r.pick(&inb) };
                let st = json!({"a": "split_block", "b": b + 1, "o": w.o(o)});
                let res = quiet(|| helpers::split_block(&mut w.ctx, bb, o));
                (st, res.map(|n| reg = Some(Box::new(move |w: &mut W| w.reg_block(n)))))
            }
            25 => {
                let (Some(s), Some(d)) = (pick(&mut r, &regs), pick(&mut r, &regs)) else { continue };
                let (ss, dd) = (w.regs[s], w.regs[d]);
                let (mut os, mut bs, mut rs) = (vec![], vec![], vec![]);
                w.tree_r(ss, &mut os, &mut bs, &mut rs);
                if ss != dd && rs.contains(&dd) {
                    continue;
                }
                let dbl = w.ctx.region(dd).blocks.to_vec();
                let bf = if dbl.is_empty() || r.chance(1, 2) { None } else { Some(*r.pick(&dbl)) };
                (json!({"a": "inline_blocks", "s": s + 1, "d": d + 1, "bf": bf.map(|b| w.b(b)).unwrap_or(0)}), quiet(|| {
                    helpers::inline_region_blocks(&mut w.ctx, ss, dd, bf);
                }))
            }
            26 => {
                let att: Vec<usize> = regs.iter().copied().filter(|x| w.ctx.region(w.regs[*x]).parent_op.is_some_and(|o| !wide || w.ctx.op(o).regions.len() > 2)).collect();
                let from = if att.is_empty() || r.chance(1, 3) { &regs } else { &att };
                let Some(x) = pick(&mut r, from) else { continue };
                let rr = w.regs[x];
                (json!({"a": "detach_region", "r": x + 1}), quiet(|| w.ctx.detach_region(rr)))
            }
            27..=29 if w.ops.len() < 26 => {
                // deep copy of an operation or a region, with some outside values replaced
                let region = r.chance(1, 2);
                let (mut os, mut bs, mut rs) = (vec![], vec![], vec![]);
                let (o, x) = (pick(&mut r, &ops), pick(&mut r, &regs));
                if region {
                    let Some(x) = x else { continue };
                    w.tree_r(w.regs[x], &mut os, &mut bs, &mut rs);
                } else {
                    let Some(o) = o else { continue };
                    w.tree(w.ops[o], &mut os, &mut bs, &mut rs);
                }
                if os.len() > 10 || !w.scoped(&os, &bs, if region { None } else { Some(w.ops[o.unwrap()]) }) {
                    continue;
                }
                let inside = |v: ValueRef| match w.ctx.value_def(v) {
                    ValueDef::OpResult(d, _) => os.contains(&d),
                    ValueDef::BlockArg(b, _) => bs.contains(&b),
                };
                let mut mv: Vec<(usize, usize)> = vec![];
                for _ in 0..r.below(3) {
                    if let (Some(p), Some(q)) = (pick(&mut r, &vals), pick(&mut r, &vals)) {
                        if !inside(w.vals[p]) && !mv.iter().any(|m| m.0 == p) {
                            mv.push((p, q));
                        }
                    }
                }
                let mut mb: Vec<(usize, usize)> = vec![];
                if r.chance(1, 2) {
                    if let (Some(p), Some(q)) = (pick(&mut r, &blocks), pick(&mut r, &blocks)) {
                        if !bs.contains(&w.blocks[p]) {
                            mb.push((p, q));
                        }
                    }
                }
                let mut mp = IrMapping::new();
                for (p, q) in &mv {
                    mp.map_value(w.vals[*p], w.vals[*q]);
                }
                for (p, q) in &mb {
                    mp.map_block(w.blocks[*p], w.blocks[*q]);
                }
                let pairs = |v: &Vec<(usize, usize)>| v.iter().map(|(p, q)| json!([p + 1, q + 1])).collect::<Vec<_>>();
                if region {
                    let rr = w.regs[x.unwrap()];
                    let st = json!({"a": "clone_region", "r": x.unwrap() + 1, "mv": pairs(&mv), "mb": pairs(&mb)});
                    let res = quiet(|| w.ctx.clone_region(rr, &mut mp));
                    (st, res.map(|n| reg = Some(Box::new(move |w: &mut W| w.reg_tree_region(n)))))
                } else {
                    let oo = w.ops[o.unwrap()];
                    let into = pick(&mut r, &blocks).filter(|b| r.chance(1, 2) && !bs.contains(&w.blocks[*b]));
                    let st = json!({"a": "clone_op", "o": o.unwrap() + 1, "b": into.map(|b| b + 1).unwrap_or(0), "mv": pairs(&mv), "mb": pairs(&mb)});
                    let res = quiet(|| match into {
                        Some(b) => {
                            let bb = w.blocks[b];
                            w.ctx.clone_op_into_block(bb, oo, &mut mp)
                        }
                        None => w.ctx.clone_op(oo, &mut mp),
                    });
                    (st, res.map(|n| reg = Some(Box::new(move |w: &mut W| w.reg_tree_op(n)))))
                }
            }
            _ => continue,
        };
        let mut step = step;
        match res {
            Ok(()) => {
                if let Some(f) = reg {
                    f(&mut w);
                }
                step["ok"] = json!(1);
                step["st"] = w.view();
                steps.push(step);
            }
            Err(_) => {
                // refused: the history ends here
                step["ok"] = json!(0);
                step["st"] = json!({});
                steps.push(step);
                break;
            }
        }
    }
    json!({"id": format!("h{seed}"), "steps": steps})
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 100) {
        let h = history(seed.wrapping_mul(1_000_003).wrapping_add(i), a.u("len", 40) as usize);
        writeln!(f, "{h}").unwrap();
    }
}
