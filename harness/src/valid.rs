//! Random modules with injected faults, and random control-flow graphs, with
//! the verdicts of the real validators and dominance analysis (IrValid, Dominance).
use crate::Args;
use crate::equiv::quiet;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::Write;
use trunk_ir::Symbol;
use trunk_ir::context::*;
use trunk_ir::dominance::DominatorTree;
use trunk_ir::location::Span;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
use trunk_ir::validation::*;

fn s(x: &str) -> Symbol {
    Symbol::from_dynamic(x)
}

struct B {
    ctx: IrContext,
    loc: Location,
    r: Rng,
    n: usize,
    ops: Vec<OpRef>,
    vals: Vec<ValueRef>,
    regs: Vec<RegionRef>,
    tys: HashMap<&'static str, TypeRef>,
    fnames: Vec<(String, usize)>,
}

const PREDS: [&str; 6] = ["oeq", "une", "olt", "ole", "ogt", "oge"];

impl B {
    fn new(seed: u64) -> B {
        let mut ctx = IrContext::new();
        let path = ctx.paths.intern("vp.trb".to_owned());
        let loc = Location::new(path, Span::new(0, 0));
        let mut tys = HashMap::new();
        for n in ["i1", "i32", "f64", "never"] {
            tys.insert(n, ctx.types.intern(TypeDataBuilder::new(s("core"), s(n)).build()));
        }
        B { ctx, loc, r: Rng::new(seed), n: 0, ops: vec![], vals: vec![], regs: vec![], tys, fnames: vec![] }
    }
    fn ty(&mut self) -> TypeRef {
        let n = *self.r.pick(&["i1", "i32", "f64"]);
        self.tys[n]
    }
    fn fty(&mut self, ret: TypeRef, ps: &[TypeRef]) -> TypeRef {
        self.ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).param(ret).params(ps.iter().copied()).build())
    }
    fn closure(&mut self, ps: &[TypeRef]) -> TypeRef {
        self.ctx.types.intern(TypeDataBuilder::new(s("closure"), s("closure")).params(ps.iter().copied()).build())
    }
    fn add(&mut self, block: Option<BlockRef>, b: OperationDataBuilder) -> OpRef {
        let d = b.build(&mut self.ctx);
        let op = self.ctx.create_op(d);
        self.ops.push(op);
        let rs = self.ctx.op_results(op).to_vec();
        self.vals.extend(rs);
        if let Some(bl) = block {
            self.ctx.push_op(bl, op);
        }
        op
    }
    fn b(&self, d: &str, n: &str) -> OperationDataBuilder {
        OperationDataBuilder::new(self.loc, s(d), s(n))
    }
    fn block(&mut self, args: usize) -> BlockRef {
        let mut a = vec![];
        for _ in 0..args {
            let ty = self.ty();
            a.push(BlockArgData { ty, attrs: Default::default() });
        }
        let b = self.ctx.create_block(BlockData { location: self.loc, args: a, ops: Default::default(), parent_region: None });
        let vs = self.ctx.block_args(b).to_vec();
        self.vals.extend(vs);
        b
    }
    fn region(&mut self, blocks: Vec<BlockRef>) -> RegionRef {
        let r = self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.into_iter().collect(), parent_op: None });
        self.regs.push(r);
        r
    }
    fn some(&mut self, vis: &[ValueRef]) -> Option<ValueRef> {
        if vis.is_empty() { None } else { Some(*self.r.pick(vis)) }
    }
    fn body(&mut self, vis: &[ValueRef], depth: usize, nblocks: usize, args: usize, mut term: Option<OperationDataBuilder>) -> RegionRef {
        // all blocks exist before their operations: any value of the region is visible in it
        let bs: Vec<BlockRef> = (0..nblocks)
            .map(|i| {
                let k = if i == 0 { args } else { self.r.below(2) };
                self.block(k)
            })
            .collect();
        let mut v = vis.to_vec();
        for &b in &bs {
            v.extend(self.ctx.block_args(b).iter().copied());
        }
        for (i, &b) in bs.iter().enumerate() {
            let k = self.r.below(if depth == 0 { 5 } else { 3 });
            for _ in 0..k {
                let rs = self.stmt(b, &v, depth);
                v.extend(rs);
            }
            if i + 1 == bs.len()
                && let Some(t) = term.take()
            {
                self.add(Some(b), t);
            }
        }
        self.region(bs)
    }
    fn term(&mut self, vis: &[ValueRef], kind: usize, arity: usize) -> OperationDataBuilder {
        let b = match kind {
            0 => self.b("scf", "yield"),
            1 => self.b("func", "tail_call").attr("callee", Attribute::Symbol(s("f1"))),
            2 => self.b("func", "unreachable"),
            3 => self.b("ability", "perform"),
            4 => self.b("ability", "handle_dispatch"),
            5 => self.b("scf", "switch"),
            6 => self.b("func", "return"),
            7 => self.b("func", "call").attr("callee", Attribute::Symbol(s("f2"))),
            8 => self.b("scf", "continue"),
            9 => self.b("ability", "yield"),
            10 => self.b("cf", "yield"),
            _ => self.b("test", "end"),
        };
        let mut b = b;
        for _ in 0..arity {
            if let Some(v) = self.some(vis) {
                b = b.operand(v);
            }
        }
        b
    }
    fn stmt(&mut self, bl: BlockRef, vis: &[ValueRef], depth: usize) -> Vec<ValueRef> {
        self.n += 1;
        let k = self.r.below(12);
        let op = match k {
            0 | 1 => {
                let name = format!("op{}", self.n);
                let mut b = self.b("test", &name);
                for _ in 0..self.r.below(3) {
                    if let Some(v) = self.some(vis) {
                        b = b.operand(v);
                    }
                }
                for _ in 0..self.r.below(3) {
                    let t = self.ty();
                    b = b.result(t);
                }
                if depth < 3 && self.r.chance(1, 3) {
                    for _ in 0..self.r.range(1, 2) {
                        let (nb, na) = (self.r.below(3), self.r.below(2));
                        let rg = self.body(vis, depth + 1, nb, na, None);
                        b = b.region(rg);
                    }
                }
                self.add(Some(bl), b)
            }
            2 => {
                let nm = if self.r.chance(1, 6) { "cmpi" } else { "cmpf" };
                let mut b = self.b("arith", nm);
                let p = match self.r.below(14) {
                    0 => Some(*self.r.pick(&["ueq", "one", "OEQ", "eq", "slt", ""])),
                    _ => Some(*self.r.pick(&PREDS)),
                };
                if let Some(p) = p {
                    b = b.attr("predicate", Attribute::Symbol(s(p)));
                }
                for _ in 0..2 {
                    if let Some(v) = self.some(vis) {
                        b = b.operand(v);
                    }
                }
                self.add(Some(bl), b.result(self.tys["i1"]))
            }
            3 | 4 | 5 if depth < 3 => {
                // scf.if
                let bad = if self.r.chance(1, 6) { self.r.range(1, 5) } else { 0 };
                let never = self.r.chance(1, 3);
                let nres = if never { 1 } else { self.r.below(3) };
                let mut b = self.b("scf", "if");
                let nop = if bad == 1 { *self.r.pick(&[0usize, 2]) } else { 1 };
                for _ in 0..nop {
                    if let Some(v) = self.some(vis) {
                        b = b.operand(v);
                    }
                }
                let nreg = if bad == 2 { *self.r.pick(&[0usize, 1, 3]) } else { 2 };
                let at = self.r.below(2);
                for i in 0..nreg {
                    let hurt = i == at;
                    let nb = if bad == 3 && hurt { *self.r.pick(&[0usize, 2]) } else { 1 };
                    let t = if bad == 4 && hurt {
                        let k = self.r.range(0, 11);
                        let n = self.r.below(3);
                        Some(self.term(vis, k, n))
                    } else if bad == 5 && hurt {
                        None
                    } else if never && self.r.chance(2, 3) {
                        let k = self.r.range(1, 5);
                        let n = if k == 1 { self.r.below(2) } else { 0 };
                        Some(self.term(vis, k, n))
                    } else {
                        Some(self.term(vis, 0, nres))
                    };
                    let na = self.r.below(2);
                    let rg = self.body(vis, depth + 1, nb, na, t);
                    b = b.region(rg);
                }
                for _ in 0..nres {
                    let t = if never { self.tys["never"] } else { self.ty() };
                    b = b.result(t);
                }
                if never && self.r.chance(1, 12) {
                    b = b.result(self.tys["never"]);
                }
                self.add(Some(bl), b)
            }
            6 if depth < 3 => {
                let nm = if self.r.chance(1, 2) { "loop" } else { "switch" };
                let mut b = self.b("scf", nm);
                if let Some(v) = self.some(vis) {
                    b = b.operand(v);
                }
                let rg = self.body(vis, depth + 1, 1, 1, None);
                b = b.region(rg);
                let k = match self.r.below(10) {
                    0 => 2,
                    1 | 2 => 1,
                    _ => 0,
                };
                for _ in 0..k {
                    let t = self.ty();
                    b = b.result(t);
                }
                self.add(Some(bl), b)
            }
            7 | 8 => {
                let tail = self.r.chance(1, 3);
                let (f, n) = if self.fnames.is_empty() { ("nowhere".to_string(), 0) } else { self.r.pick(&self.fnames.clone()).clone() };
                let n = if self.r.chance(1, 5) { self.r.below(4) } else { n };
                let mut b = self.b("func", if tail { "tail_call" } else { "call" });
                if !self.r.chance(1, 15) {
                    b = b.attr("callee", Attribute::Symbol(s(&f)));
                }
                for _ in 0..n {
                    if let Some(v) = self.some(vis) {
                        b = b.operand(v);
                    }
                }
                if !tail {
                    let t = self.ty();
                    b = b.result(t);
                }
                self.add(Some(bl), b)
            }
            9 | 10 => {
                // func.tail_call_indirect through a callee made for the purpose
                let bad = if self.r.chance(1, 3) { self.r.range(1, 8) } else { 0 };
                let mut ps = vec![];
                let mut args = vec![];
                for _ in 0..self.r.below(3) {
                    if let Some(v) = self.some(vis) {
                        args.push(v);
                        ps.push(self.ctx.value_ty(v));
                    }
                }
                let ret = if bad == 1 { self.ty() } else { self.tys["never"] };
                if bad == 2 {
                    let t = self.ty();
                    ps.push(t);
                }
                if bad == 3 && !ps.is_empty() {
                    let i = self.r.below(ps.len());
                    ps[i] = self.tys["never"];
                }
                let mut cty = self.fty(ret, &ps);
                if self.r.chance(1, 2) {
                    cty = self.closure(&[cty]);
                }
                if bad == 4 {
                    cty = self.ty();
                }
                if bad == 5 {
                    let k = self.r.below(2);
                    cty = if k == 0 { self.closure(&[]) } else { self.closure(&[cty, cty]) };
                }
                if bad == 8 {
                    let c1 = self.closure(&[cty]);
                    cty = self.closure(&[c1]);
                }
                let mk = self.b("test", "callee").result(cty);
                let mk = self.add(Some(bl), mk);
                let mut b = self.b("func", "tail_call_indirect");
                if bad != 6 {
                    b = b.operand(self.ctx.op_result(mk, 0));
                    for a in args {
                        b = b.operand(a);
                    }
                }
                if bad == 7 {
                    let t = self.ty();
                    b = b.result(t);
                }
                self.add(Some(bl), b);
                mk
            }
            _ if depth < 2 && self.r.chance(1, 2) => self.func(Some(bl), depth + 1),
            _ => {
                let t = self.ty();
                let b = self.b("arith", "const").attr("value", Attribute::Int(1)).result(t);
                self.add(Some(bl), b)
            }
        };
        self.ctx.op_results(op).to_vec()
    }
    fn func(&mut self, bl: Option<BlockRef>, depth: usize) -> OpRef {
        self.n += 1;
        let d = *self.r.pick(&["func", "func", "func", "wasm", "clif", "test"]);
        let np = self.r.below(3);
        let name = format!("f{}", self.n);
        let ret = self.ty();
        let ps: Vec<TypeRef> = (0..np).map(|_| self.ty()).collect();
        let fty = self.fty(ret, &ps);
        let mut b = self.b(d, "func").attr("sym_name", Attribute::Symbol(s(&name)));
        if !self.r.chance(1, 12) {
            b = b.attr("type", Attribute::Type(fty));
        }
        self.fnames.push((name, np));
        if !self.r.chance(1, 8) {
            let nb = self.r.range(1, 3);
            let rg = self.body(&[], depth, nb, np, None);
            b = b.region(rg);
        }
        self.add(bl, b)
    }
    fn module(&mut self, depth: usize, bl: Option<BlockRef>) -> OpRef {
        let nb = if self.r.chance(1, 10) { 2 } else { 1 };
        let bs: Vec<BlockRef> = (0..nb).map(|_| self.block(0)).collect();
        for &b in &bs {
            for _ in 0..self.r.range(1, 3) {
                if depth < 2 && self.r.chance(1, 6) {
                    self.module(depth + 1, Some(b));
                } else if self.r.chance(1, 10) {
                    let t = self.ty();
                    let c = self.b("test", "global").result(t);
                    self.add(Some(b), c);
                } else {
                    self.func(Some(b), 0);
                }
            }
        }
        let rg = self.region(bs);
        let b = self.b("core", "module").attr("sym_name", Attribute::Symbol(s("m"))).region(rg);
        self.add(bl, b)
    }
    fn fault(&mut self) {
        let op = *self.r.pick(&self.ops.clone());
        let n = self.ctx.op_operands(op).len();
        let any = if self.vals.is_empty() { return } else { *self.r.pick(&self.vals.clone()) };
        match self.r.below(8) {
            0..=3 if n > 0 => {
                let i = self.r.below(n) as u32;
                self.ctx.set_op_operand(op, i, any);
            }
            4 | 5 => self.ctx.push_op_operand(op, any),
            6 if self.ctx.op(op).parent_block.is_some() => self.ctx.detach_op(op),
            7 if n > 0 => {
                let i = self.r.below(n) as u32;
                self.ctx.remove_op_operand(op, i);
            }
            _ => {}
        }
    }
}

fn tname(ctx: &IrContext, t: TypeRef) -> Value {
    let d = ctx.types.get(t);
    let ps: Vec<Value> = d.params.iter().map(|&p| tname(ctx, p)).collect();
    json!({"n": format!("{}.{}", d.dialect, d.name), "p": ps, "id": format!("{t:?}")})
}

fn view(b: &B) -> Value {
    let c = &b.ctx;
    let om: HashMap<OpRef, usize> = b.ops.iter().enumerate().map(|(i, &o)| (o, i + 1)).collect();
    let vm: HashMap<ValueRef, usize> = b.vals.iter().enumerate().map(|(i, &v)| (v, i + 1)).collect();
    let rm: HashMap<RegionRef, usize> = b.regs.iter().enumerate().map(|(i, &v)| (v, i + 1)).collect();
    let ops: Vec<Value> = b
        .ops
        .iter()
        .map(|&o| {
            let d = c.op(o);
            let at = |k: &'static str| d.attributes.get_symbol(k).map(|x| x.to_string());
            let np = d.attributes.get_type("type").map(|t| c.types.get(t).params.len() as i64 - 1).unwrap_or(-1);
            let rd = |d: &str, n: &str| d == "func" && n == "tail_call_indirect";
            let ty = rd(&d.dialect.to_string(), &d.name.to_string());
            json!({
                "n": format!("{}.{}", d.dialect, d.name),
                "o": c.op_operands(o).iter().map(|v| vm[v]).collect::<Vec<_>>(),
                "r": c.op_results(o).iter().map(|v| vm[v]).collect::<Vec<_>>(),
                "rt": c.op_result_types(o).iter().map(|&t| { let d = c.types.get(t); format!("{}.{}", d.dialect, d.name) }).collect::<Vec<_>>(),
                "ot": if ty { c.op_operands(o).iter().map(|&v| tname(c, c.value_ty(v))).collect::<Vec<_>>() } else { vec![] },
                "rg": d.regions.iter().map(|r| rm[r]).collect::<Vec<_>>(),
                "pred": at("predicate").unwrap_or("-".into()),
                "callee": at("callee").unwrap_or("-".into()),
                "sym": at("sym_name").unwrap_or("-".into()),
                "np": np,
            })
        })
        .collect();
    let regs: Vec<Value> = b
        .regs
        .iter()
        .map(|&r| {
            let bl: Vec<Value> = c
                .region(r)
                .blocks
                .iter()
                .map(|&bl| json!({"args": c.block_args(bl).iter().map(|v| vm[v]).collect::<Vec<_>>(), "ops": c.block(bl).ops.iter().map(|o| om[o]).collect::<Vec<_>>()}))
                .collect();
            json!(bl)
        })
        .collect();
    let uses: Vec<Value> = b.vals.iter().map(|&v| json!(c.uses(v).iter().map(|u| json!([om[&u.user], u.operand_index + 1])).collect::<Vec<_>>())).collect();
    json!({"ops": ops, "regs": regs, "uses": uses})
}

fn validate_case(id: usize, seed: u64) -> Value {
    let mut b = B::new(seed);
    let top = b.module(0, None);
    let k = match b.r.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 3,
    };
    for _ in 0..k {
        b.fault();
    }
    let mods: Vec<OpRef> = b.ops.iter().copied().filter(|&o| Module::new(&b.ctx, o).is_some()).collect();
    let m = if b.r.chance(1, 6) { *b.r.pick(&mods) } else { top };
    let v = view(&b);
    let module = Module::new(&b.ctx, m).unwrap();
    crate::case(&format!("valid {id} {v}"));
    let got = quiet(|| {
        let sc = validate_value_integrity(&b.ctx, module);
        let stale: Vec<Value> = sc
            .errors
            .iter()
            .map(|e| match e {
                ValidationError::StaleValue { function_name, consumer_op, operand_index, .. } => json!([function_name, consumer_op, operand_index + 1]),
                e => json!([format!("{e}"), "?", 0]),
            })
            .collect();
        let uc = validate_use_chains(&b.ctx, module).is_ok();
        let ov = validate_operation_verifiers(&b.ctx, module).is_ok();
        let all = validate_all(&b.ctx, module).is_ok();
        b.ctx.take_diagnostics();
        validate_call_arity(&b.ctx, module);
        let w: Vec<String> = b.ctx.take_diagnostics().into_iter().map(|d| format!("{}", d.severity)).collect();
        json!({"stale": stale, "uses": uc as u8, "ops": ov as u8, "all": all as u8, "warn": w})
    });
    crate::idle();
    let got = got.unwrap_or_else(|e| json!({"stale": [[e, "panic", 0]], "uses": 2, "ops": 2, "all": 2, "warn": ["panic"]}));
    let body = module.body(&b.ctx).map(|r| b.regs.iter().position(|&x| x == r).unwrap() + 1).unwrap_or(0);
    json!({"id": format!("v{id}"), "body": body, "m": v, "got": got})
}

// ------------------------------------------------------------------ dominance
/// `g[i]` lists the successors of block i+1; 0 is a block of another region.
fn dom_case(id: String, g: &[Vec<usize>]) -> Value {
    let mut b = B::new(7);
    let n = g.len();
    let blocks: Vec<BlockRef> = (0..n).map(|_| b.block(0)).collect();
    let other = b.block(0);
    b.region(vec![other]);
    let reg = b.region(blocks.clone());
    for (i, ss) in g.iter().enumerate() {
        let mut t = b.b("test", "first");
        if i % 2 == 1 {
            // only the last operation of a block transfers control
            b.add(Some(blocks[i]), t);
        }
        t = b.b("test", "last");
        for &x in ss {
            t = t.successor(if x == 0 { other } else { blocks[x - 1] });
        }
        if !(ss.is_empty() && i % 3 == 0) {
            b.add(Some(blocks[i]), t);
        }
    }
    crate::case(&format!("dominance {g:?}"));
    let got = quiet(|| {
        let d = DominatorTree::compute(&b.ctx, reg);
        let pos = |x: BlockRef| blocks.iter().position(|&y| y == x).map(|i| i + 1).unwrap_or(0);
        let mut dom = vec![];
        for i in 0..n {
            for j in 0..n {
                if d.dominates(blocks[i], blocks[j]) {
                    dom.push([i + 1, j + 1]);
                }
            }
        }
        let f = d.dominates(other, blocks[0]) || d.dominates(blocks[0], other) || d.is_reachable(other);
        json!({
            "dom": dom, "valid": d.is_valid() as u8, "entry": d.entry().map(pos).unwrap_or(0), "foreign": f as u8,
            "reach": (0..n).filter(|&i| d.is_reachable(blocks[i])).map(|i| i + 1).collect::<Vec<_>>(),
            "pred": (0..n).map(|i| d.predecessors(blocks[i]).iter().map(|&x| pos(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "succ": (0..n).map(|i| d.successors(blocks[i]).iter().map(|&x| pos(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        })
    });
    crate::idle();
    let got = got.unwrap_or_else(|e| json!({"dom": [], "valid": 2, "entry": 0, "foreign": 1, "reach": [], "pred": [], "succ": [], "panic": e}));
    json!({"id": id, "g": g, "got": got})
}

fn lists(lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for a in lo..=hi {
        v.push(vec![a]);
        for b in lo..=hi {
            v.push(vec![a, b]);
        }
    }
    v
}

pub fn run_dom(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let mut put = |v: Value| writeln!(f, "{v}").unwrap();
    let mut k = 0;
    if a.u("exhaustive", 1) == 1 {
        for n in 1..=3usize {
            let ls = lists(if n < 3 { 0 } else { 1 }, n);
            for c in 0..ls.len().pow(n as u32) {
                let g: Vec<Vec<usize>> = (0..n).map(|i| ls[c / ls.len().pow(i as u32) % ls.len()].clone()).collect();
                k += 1;
                put(dom_case(format!("x{k}"), &g));
            }
        }
    }
    let mut r = Rng::new(a.u("seed", 1));
    for _ in 0..a.u("n", 1000) {
        let n = r.range(3, a.u("max", 9) as usize);
        let style = r.below(3);
        let g: Vec<Vec<usize>> = (1..=n)
            .map(|i| {
                let k = match style {
                    0 => r.below(3),
                    1 => r.range(1, 2),
                    _ => r.below(4),
                };
                (0..k)
                    .map(|_| {
                        if r.chance(1, 60) {
                            0
                        } else if style == 1 && r.chance(3, 4) {
                            (i + r.range(1, 2)).min(n) // mostly forward: long chains, joins, a few back edges
                        } else {
                            r.range(1, n)
                        }
                    })
                    .collect()
            })
            .collect();
        k += 1;
        put(dom_case(format!("r{k}"), &g));
    }
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 1000) {
        let v = validate_case(i as usize, seed.wrapping_mul(1_000_003) + i);
        writeln!(f, "{v}").unwrap();
    }
}
