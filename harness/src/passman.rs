//! Pass managers over random operation trees, with passes whose effects are
//! scripted; and histories of the analysis cache (PassMgr, AnaCache).
use crate::Args;
use crate::equiv::quiet;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::rc::Rc;
use trunk_ir::Symbol;
use trunk_ir::analysis::{Analysis, AnalysisCache};
use trunk_ir::context::*;
use trunk_ir::dialect::{core, func, scf};
use trunk_ir::location::Span;
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::*;
use trunk_ir::refs::*;
use trunk_ir::types::{Attribute, Location};

const KINDS: [(&str, &str); 4] = [("core", "module"), ("func", "func"), ("scf", "if"), ("test", "leaf")];

#[derive(Default)]
struct Sh {
    ids: HashMap<OpRef, usize>,
    ops: Vec<OpRef>,
    log: Vec<Value>,
    effects: HashMap<(usize, usize), (&'static str, usize)>,
    loc: Option<Location>,
    ran: usize,
}
type S = Rc<RefCell<Sh>>;

fn mk(ctx: &mut IrContext, s: &S, kind: usize, body: Vec<OpRef>) -> OpRef {
    let loc = s.borrow().loc.unwrap();
    let (d, n) = KINDS[kind];
    let mut b = OperationDataBuilder::new(loc, Symbol::new(d), Symbol::new(n));
    if kind < 2 {
        b = b.attr("sym_name", Attribute::Symbol(Symbol::new("x")));
    }
    if kind == 1 {
        let nil = core::nil(ctx).as_type_ref();
        let t = core::func(ctx, nil, []).as_type_ref();
        b = b.attr("type", Attribute::Type(t));
    }
    if kind < 3 {
        let bl = ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None });
        for o in body {
            ctx.push_op(bl, o);
        }
        let mut rgs = vec![bl];
        if kind == 2 {
            rgs.push(ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None }));
        }
        for bl in rgs {
            let rg = ctx.create_region(RegionData { location: loc, blocks: std::iter::once(bl).collect(), parent_op: None });
            b = b.region(rg);
        }
    }
    let d = b.build(ctx);
    ctx.create_op(d)
}

fn number(ctx: &IrContext, s: &S, op: OpRef) -> usize {
    let mut x = s.borrow_mut();
    x.ops.push(op);
    let n = x.ops.len();
    x.ids.insert(op, n);
    let _ = ctx;
    n
}

fn tree(ctx: &mut IrContext, s: &S, r: &mut Rng, kind: usize, depth: usize, budget: &mut usize) -> (OpRef, Value) {
    let mut kids = vec![];
    let mut descs = vec![];
    if kind < 3 {
        let n = if depth == 0 { r.range(2, 4) } else { r.below(3) };
        for _ in 0..n {
            if *budget == 0 || depth > 3 {
                break;
            }
            *budget -= 1;
            let k = match r.below(8) {
                0 => 0,
                1..=4 => 1,
                5 | 6 => 2,
                _ => 3,
            };
            let (o, d) = tree(ctx, s, r, k, depth + 1, budget);
            kids.push(o);
            descs.push(d);
        }
    }
    let op = mk(ctx, s, kind, kids);
    let id = number(ctx, s, op);
    (op, json!({"id": id, "k": KINDS[kind].0, "kids": descs}))
}

/// A manager: the kind of its targets, its passes, hooks and nested managers.
struct Mgr {
    kind: usize,
    passes: Vec<usize>,
    ver: usize,
    ins: usize,
    nested: Vec<Mgr>,
}
fn gen_mgr(r: &mut Rng, kind: usize, depth: usize, np: &mut usize) -> Mgr {
    let passes = (0..r.below(3))
        .map(|_| {
            *np += 1;
            *np
        })
        .collect();
    let hook = |r: &mut Rng, n: usize| if r.chance(1, if depth == 0 { 2 } else { 4 }) { n } else { 0 };
    *np += 1;
    let h = *np;
    let ver = hook(r, h);
    let ins = hook(r, h);
    let nested = if depth < 3 {
        (0..r.below(if depth == 0 { 4 } else { 2 }))
            .map(|_| {
                let k = match r.below(12) {
                    0 => 2,
                    1..=3 => 0,
                    _ => 1,
                };
                gen_mgr(r, k, depth + 1, np)
            })
            .collect()
    } else {
        vec![]
    };
    Mgr { kind, passes, ver, ins, nested }
}
fn mgr_json(m: &Mgr) -> Value {
    json!({"k": KINDS[m.kind].0, "passes": m.passes, "ver": m.ver, "ins": m.ins, "nested": m.nested.iter().map(mgr_json).collect::<Vec<_>>()})
}

struct P<T> {
    tag: usize,
    name: &'static str,
    s: S,
    _t: std::marker::PhantomData<T>,
}
#[derive(Debug)]
struct Nope;
impl std::fmt::Display for Nope {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("scripted failure")
    }
}
impl std::error::Error for Nope {}

fn attached(ctx: &IrContext, op: OpRef) -> bool {
    ctx.op(op).parent_block.is_some()
}

impl<T: DialectOp + 'static> Pass for P<T> {
    type Target = T;
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&mut self, ctx: &mut IrContext, target: T) -> PassRunResult {
        let op = target.op_ref();
        let (id, eff) = {
            let mut x = self.s.borrow_mut();
            let id = x.ids.get(&op).copied().unwrap_or(0);
            x.log.push(json!(["run", self.tag, id, 0]));
            x.ran += 1;
            if x.ran > 500 {
                panic!("pass manager does not come to an end");
            }
            (id, x.effects.get(&(self.tag, id)).copied().unwrap_or(("none", 0)))
        };
        let x = self.s.borrow().ops.get(eff.1.wrapping_sub(1)).copied();
        match eff.0 {
            "fail" => return Err(Box::new(Nope)),
            "erase" => {
                if let Some(o) = x
                    && attached(ctx, o)
                {
                    ctx.detach_op(o);
                    ctx.remove_op(o);
                }
            }
            "add" => {
                // a new function, last in the block of the target (in the body of a module)
                let b = if ctx.op(op).dialect == Symbol::new("core") {
                    ctx.op(op).regions.first().and_then(|&r| ctx.region(r).blocks.first().copied())
                } else {
                    ctx.op(op).parent_block
                };
                if let Some(b) = b {
                    let f = mk(ctx, &self.s, 1, vec![]);
                    number(ctx, &self.s, f);
                    ctx.push_op(b, f);
                }
            }
            "retag" => {
                if let Some(o) = x {
                    ctx.op_mut(o).dialect = Symbol::new("test");
                    ctx.op_mut(o).name = Symbol::new("leaf");
                }
            }
            "dirty" => {
                if let Some(o) = x {
                    ctx.op_mut(o).attributes.insert(Symbol::new("bad"), Attribute::Bool(true));
                }
            }
            _ => {}
        }
        let _ = id;
        Ok(())
    }
}

fn build<T: DialectOp + 'static>(pm: &mut PassManager<T>, m: &Mgr, s: &S) {
    // registration of passes and nested managers is interleaved: passes come first all the same
    for (i, n) in m.nested.iter().enumerate() {
        if i % 2 == 1 {
            continue;
        }
        nest(pm, n, s);
    }
    for &p in &m.passes {
        pm.add_pass(P::<T> { tag: p, name: Box::leak(format!("p{p}").into_boxed_str()), s: s.clone(), _t: Default::default() });
    }
    for (i, n) in m.nested.iter().enumerate() {
        if i % 2 == 1 {
            nest(pm, n, s);
        }
    }
    if m.ver != 0 {
        let (v, s) = (m.ver, s.clone());
        pm.with_verifier(move |ctx, op| {
            let mut x = s.borrow_mut();
            let id = x.ids.get(&op).copied().unwrap_or(0);
            x.log.push(json!(["verify", v, id, 0]));
            if ctx.op(op).attributes.contains_key("bad") { Err(VerifyError { message: format!("bad {id}") }) } else { Ok(()) }
        });
    }
    if m.ins != 0 {
        let (v, s) = (m.ins, s.clone());
        pm.with_instrumentation(move |_, name, op| {
            let mut x = s.borrow_mut();
            let id = x.ids.get(&op).copied().unwrap_or(0);
            let p: usize = name[1..].parse().unwrap_or(0);
            x.log.push(json!(["see", v, id, p]));
        });
    }
}
fn nest<T: DialectOp + 'static>(pm: &mut PassManager<T>, n: &Mgr, s: &S) {
    match n.kind {
        0 => build(pm.nest::<core::Module>(), n, s),
        1 => build(pm.nest::<func::Func>(), n, s),
        _ => build(pm.nest::<scf::If>(), n, s),
    }
}
fn all_passes(m: &Mgr, out: &mut Vec<usize>) {
    out.extend(&m.passes);
    for n in &m.nested {
        all_passes(n, out);
    }
}
/// nested managers in the order they were registered in
fn reorder(m: &mut Mgr) {
    for n in m.nested.iter_mut() {
        reorder(n);
    }
    let v = std::mem::take(&mut m.nested);
    let (mut a, mut b) = (vec![], vec![]);
    for (i, n) in v.into_iter().enumerate() {
        if i % 2 == 0 { a.push(n) } else { b.push(n) }
    }
    a.extend(b);
    m.nested = a;
}

fn pm_case(id: usize, seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let mut ctx = IrContext::new();
    let path = ctx.paths.intern("vp.trb".to_owned());
    let s: S = Rc::new(RefCell::new(Sh { loc: Some(Location::new(path, Span::new(0, 0))), ..Default::default() }));
    let mut budget = 9;
    let (root, desc) = tree(&mut ctx, &s, &mut r, 0, 0, &mut budget);
    let mut np = 0;
    let mut m = gen_mgr(&mut r, 0, 0, &mut np);
    let n = s.borrow().ops.len();
    let rid = s.borrow().ids[&root];
    let mut ps = vec![];
    all_passes(&m, &mut ps);
    let mut effs = vec![];
    if !ps.is_empty() {
        for _ in 0..r.below(6) {
            let p = *r.pick(&ps);
            let t = r.range(1, n);
            let x = if r.chance(1, 4) { t } else { r.range(1, n) };
            let e = *r.pick(&["erase", "erase", "erase", "add", "retag", "dirty", "fail"]);
            if x == rid && (e == "erase" || e == "retag") {
                continue;
            }
            if s.borrow_mut().effects.insert((p, t), (e, x)).is_none() {
                effs.push(json!([p, t, e, x]));
            } else {
                s.borrow_mut().effects.remove(&(p, t));
                effs.retain(|v| v[0] != json!(p) || v[1] != json!(t));
            }
        }
    }
    crate::case(&format!("passman {id} {seed} {}", mgr_json(&m)));
    let got = quiet(|| {
        let mut pm = PassManager::<core::Module>::new();
        build(&mut pm, &m, &s);
        let target = core::Module::from_op(&ctx, root).unwrap();
        match pm.run(&mut ctx, target) {
            Ok(()) => json!(["ok", "-"]),
            Err(e) => json!([match e.kind() { PassErrorKind::Execution(_) => "execution", PassErrorKind::Verification(_) => "verification" }, e.pass_name()]),
        }
    });
    crate::idle();
    let got = got.unwrap_or_else(|e| json!(["panic", e]));
    reorder(&mut m);
    let log = std::mem::take(&mut s.borrow_mut().log);
    // operations as a flat table: kind, parent, children in order
    let mut flat = vec![Value::Null; n];
    fn fl(d: &Value, parent: usize, out: &mut Vec<Value>) {
        let i = d["id"].as_u64().unwrap() as usize;
        let kids: Vec<u64> = d["kids"].as_array().unwrap().iter().map(|k| k["id"].as_u64().unwrap()).collect();
        out[i - 1] = json!({"k": d["k"], "up": parent, "kids": kids, "bad": 0});
        for k in d["kids"].as_array().unwrap() {
            fl(k, i, out);
        }
    }
    fl(&desc, 0, &mut flat);
    // managers as a flat table
    let mut ms = vec![];
    fn flm(m: &Mgr, out: &mut Vec<Value>) -> usize {
        out.push(Value::Null);
        let i = out.len();
        let nested: Vec<usize> = m.nested.iter().map(|n| flm(n, out)).collect();
        out[i - 1] = json!({"k": KINDS[m.kind].0, "passes": m.passes, "ver": m.ver, "ins": m.ins, "nested": nested});
        i
    }
    flm(&m, &mut ms);
    json!({"id": format!("m{id}"), "ops": flat, "root": rid, "mgrs": ms, "effects": effs, "log": log, "res": got})
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 1000) {
        writeln!(f, "{}", pm_case(i as usize, seed.wrapping_mul(1_000_003) + i)).unwrap();
    }
}

// ------------------------------------------------------------- analysis cache
thread_local! { static WORLD: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) }; }
struct An<const N: usize>(u64, OpRef);
impl<const N: usize> Analysis for An<N> {
    fn compute(_: &IrContext, target: OpRef) -> Self {
        WORLD.with(|w| w.set((w.get().0, w.get().1 + 1)));
        An(WORLD.with(|w| w.get().0), target)
    }
}
fn get<const N: usize>(c: &mut AnalysisCache, ctx: &IrContext, t: OpRef) -> Value {
    let a = c.get::<An<N>>(ctx, t);
    json!([a.0, (a.1 == t) as u8])
}
fn cached<const N: usize>(c: &AnalysisCache, t: OpRef) -> Value {
    c.get_cached::<An<N>>(t).map(|a| json!([a.0, (a.1 == t) as u8])).unwrap_or(json!([0, 0]))
}

fn cache_case(id: usize, seed: u64, len: usize) -> Value {
    let mut r = Rng::new(seed);
    let mut ctx = IrContext::new();
    let path = ctx.paths.intern("vp.trb".to_owned());
    let s: S = Rc::new(RefCell::new(Sh { loc: Some(Location::new(path, Span::new(0, 0))), ..Default::default() }));
    let ts: Vec<OpRef> = (0..3).map(|i| mk(&mut ctx, &s, i, vec![])).collect();
    WORLD.with(|w| w.set((1, 0)));
    let mut steps = vec![];
    let got = quiet(|| {
        AnalysisCache::scope(&mut ctx, |ctx, c| {
            for _ in 0..len {
                let (a, t) = (r.range(1, 3), r.range(1, 3));
                let o = ts[t - 1];
                let before = WORLD.with(|w| w.get().1);
                let (k, res) = match r.below(12) {
                    0..=4 => ("get", match a { 1 => get::<1>(c, ctx, o), 2 => get::<2>(c, ctx, o), _ => get::<3>(c, ctx, o) }),
                    5 | 6 => ("cached", match a { 1 => cached::<1>(c, o), 2 => cached::<2>(c, o), _ => cached::<3>(c, o) }),
                    7 | 8 => {
                        WORLD.with(|w| w.set((w.get().0 + 1, w.get().1)));
                        ("change", json!([0, 0]))
                    }
                    9 => {
                        match a { 1 => c.invalidate::<An<1>>(o), 2 => c.invalidate::<An<2>>(o), _ => c.invalidate::<An<3>>(o) };
                        ("drop", json!([0, 0]))
                    }
                    10 => {
                        c.invalidate_all(o);
                        ("dropall", json!([0, 0]))
                    }
                    _ => {
                        if r.chance(1, 3) {
                            c.clear();
                            ("clear", json!([0, 0]))
                        } else {
                            c.invalidate_all(o);
                            ("dropall", json!([0, 0]))
                        }
                    }
                };
                let comp = WORLD.with(|w| w.get().1) - before;
                steps.push(json!({"k": k, "a": a, "t": t, "res": res, "comp": comp, "len": c.len(), "empty": c.is_empty() as u8}));
            }
        })
    });
    if let Err(e) = got {
        steps.push(json!({"k": "panic", "a": 0, "t": 0, "res": [0, 0], "comp": 0, "len": 0, "empty": 0, "why": e}));
    }
    json!({"id": format!("c{id}"), "steps": steps})
}

pub fn run_cache(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 200) {
        writeln!(f, "{}", cache_case(i as usize, seed.wrapping_mul(1_000_003) + i, a.u("len", 60) as usize)).unwrap();
    }
}
