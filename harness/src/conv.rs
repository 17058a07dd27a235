//! The conversion framework on random modules: scripted patterns, targets and
//! type converters, stepped one sweep at a time and in one go (Rewrite.tla).
use crate::Args;
use crate::equiv::quiet;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::Write;
use trunk_ir::Symbol;
use trunk_ir::context::*;
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir::dialect::func;
use trunk_ir::location::Span;
use trunk_ir::ops::DialectOp;
use trunk_ir::refs::*;
use trunk_ir::rewrite::type_converter::MaterializeResult;
use trunk_ir::rewrite::*;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};

fn s(x: &str) -> Symbol {
    Symbol::from_dynamic(x)
}
const CAST: &str = "core.unrealized_conversion_cast";
const KINDS: [&str; 9] = ["a.x", "a.y", "a.z", "b.x", "b.y", "b.z", "c.x", "c.y", "c.z"];
const DEC: [&str; 3] = ["legal", "illegal", "defer"];

#[derive(Clone, Copy, PartialEq)]
enum V {
    R(usize, usize), // result: operation, index
    A(usize, usize), // argument: block, index
}
impl V {
    fn j(&self) -> Value {
        match self {
            V::R(o, i) => json!([0, o, i]),
            V::A(b, i) => json!([1, b, i]),
        }
    }
}
#[derive(Clone)]
struct OpD {
    k: String,
    d: [usize; 3],
    o: Vec<V>,
    rt: Vec<usize>,
    regs: Vec<Vec<usize>>,
    sig: Vec<usize>,
    b: usize,
}
#[derive(Clone, Default)]
struct BlkD {
    args: Vec<usize>,
    ops: Vec<usize>,
}
#[derive(Clone, Default)]
struct Ir {
    ops: Vec<OpD>,
    blocks: Vec<BlkD>,
}
#[derive(Clone)]
struct PatD {
    k: String,
    act: &'static str,
    to: String,
    pre: usize,
}
#[derive(Clone, Default)]
struct Conf {
    legal_d: Vec<String>,
    illegal_d: Vec<String>,
    legal_o: Vec<String>,
    illegal_o: Vec<String>,
    rec_l: Vec<String>,
    rec_d: Vec<String>,
    dyn_o: Vec<String>,
    dyn_d: Vec<String>,
    dyn_u: bool,
    conv: Vec<Vec<(usize, usize)>>,
    mats: Vec<(usize, usize, usize)>,
    auto: bool,
    pats: Vec<PatD>,
}

fn kind(r: &mut Rng) -> String {
    r.pick(&KINDS).to_string()
}

fn gen_block(ir: &mut Ir, r: &mut Rng, vis: &[V], depth: usize, budget: &mut usize, args: Vec<usize>, top: bool) -> usize {
    ir.blocks.push(BlkD { args: args.clone(), ops: vec![] });
    let b = ir.blocks.len();
    let mut vis = vis.to_vec();
    for i in 0..args.len() {
        vis.push(V::A(b, i + 1));
    }
    let n = if top && *budget > 11 { 9 } else { r.range(if top { 2 } else { 0 }, if top { 5 } else { 3 }) };
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        let is_fn = r.chance(if top { 2 } else { 1 }, if top { 5 } else { 12 });
        let is_cast = !is_fn && !vis.is_empty() && r.chance(1, 6);
        let k = if is_fn { "func.func".into() } else if is_cast { CAST.into() } else { kind(r) };
        let d = if is_fn { [2, 2, 2] } else { [r.below(3), r.below(3), r.below(3)] };
        let mut o = vec![];
        if !is_fn && !vis.is_empty() {
            for _ in 0..(if is_cast { 1 } else if r.chance(1, 6) { r.range(3, 6) } else { r.below(3) }) {
                o.push(*r.pick(&vis));
            }
        }
        let rt: Vec<usize> = if is_fn { vec![] } else { (0..(if is_cast { 1 } else if r.chance(1, 8) { r.range(3, 4) } else { r.below(3) })).map(|_| r.range(1, 4)).collect() };
        let mut regs = vec![];
        let mut sig = vec![];
        if is_fn {
            let np = if r.chance(1, 6) { r.range(3, 5) } else { r.below(3) };
            let ps: Vec<usize> = (0..np).map(|_| r.range(1, 4)).collect();
            sig.push(r.range(1, 4));
            sig.extend(&ps);
            if !r.chance(1, 5) {
                let mut a = ps.clone();
                if r.chance(1, 8) {
                    a.push(r.range(1, 4)); // arity of the body disagrees
                }
                let mut bs = vec![gen_block(ir, r, &[], depth + 1, budget, a, false)];
                if r.chance(1, 3) {
                    let a = (0..r.below(2)).map(|_| r.range(1, 4)).collect();
                    bs.push(gen_block(ir, r, &[], depth + 1, budget, a, false));
                }
                regs.push(bs);
            }
        } else if !is_cast && depth < 3 && r.chance(1, 4) {
            for _ in 0..(if r.chance(1, 6) { 3 } else { r.range(1, 2) }) {
                let mut bs = vec![];
                for _ in 0..(if r.chance(1, 5) { 2 } else { 1 }) {
                    let a = (0..(if r.chance(1, 6) { 3 } else { r.below(2) })).map(|_| r.range(1, 4)).collect();
                    bs.push(gen_block(ir, r, &vis, depth + 1, budget, a, false));
                }
                regs.push(bs);
            }
        }
        let nr = rt.len();
        ir.ops.push(OpD { k, d, o, rt, regs, sig, b });
        let id = ir.ops.len();
        ir.blocks[b - 1].ops.push(id);
        for i in 0..nr {
            vis.push(V::R(id, i + 1));
        }
    }
    b
}

fn gen_conf(r: &mut Rng) -> Conf {
    let mut c = Conf::default();
    for d in ["a", "b", "c", "core", "func"] {
        match r.below(5) {
            0 => c.legal_d.push(d.into()),
            1 => c.illegal_d.push(d.into()),
            _ => {}
        }
        if r.chance(1, 5) {
            c.dyn_d.push(d.into());
        }
    }
    let density = r.range(2, 6);
    for k in KINDS.iter().chain([&"func.func", &CAST]) {
        match r.below(density + 2) {
            0 => {
                c.legal_o.push(k.to_string());
                if r.chance(1, 3) {
                    c.rec_l.push(k.to_string());
                }
            }
            1 => c.illegal_o.push(k.to_string()),
            _ => {}
        }
        if r.chance(1, 5) {
            c.dyn_o.push(k.to_string());
            if r.chance(1, 3) {
                c.rec_d.push(k.to_string());
            }
        }
    }
    c.dyn_u = r.chance(1, 5);
    if r.chance(1, 6) {
        // no rules at all
        c = Conf::default();
    } else if r.chance(1, 3) {
        // rules of one kind only
        let k = r.below(7);
        let o = c;
        c = Conf::default();
        match k {
            0 => c.legal_d = o.legal_d,
            1 => c.illegal_d = o.illegal_d,
            2 => c.legal_o = o.legal_o,
            3 => c.illegal_o = o.illegal_o,
            4 => c.dyn_o = o.dyn_o,
            5 => c.dyn_d = o.dyn_d,
            _ => c.dyn_u = true,
        }
        if r.chance(1, 2) {
            // one rule only
            for v in [&mut c.legal_d, &mut c.illegal_d, &mut c.legal_o, &mut c.illegal_o, &mut c.dyn_o, &mut c.dyn_d] {
                v.truncate(1);
            }
        }
    }
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 2) {
            let m = (1..=4).filter_map(|f| if r.chance(1, 3) { Some((f, r.range(1, 4))) } else { None }).collect();
            c.conv.push(m);
        }
    }
    for f in 1..=4 {
        for t in 1..=4 {
            if f != t && r.chance(1, 3) {
                c.mats.push((f, t, r.below(3)));
            }
        }
    }
    c.auto = r.chance(1, 2);
    for _ in 0..r.range(1, 5) {
        let k = if r.chance(1, 12) { CAST.to_string() } else { kind(r) };
        let act = *r.pick(&["rename", "rename", "rename", "erase", "erase", "insert", "addmod", "claim", "swallow"]);
        c.pats.push(PatD { k, act, to: kind(r), pre: r.below(3) });
    }
    if r.chance(1, 2) {
        let at = r.below(c.pats.len() + 1);
        c.pats.insert(at, PatD { k: "func.func".into(), act: "sig", to: "-".into(), pre: 0 });
    }
    c
}

// ------------------------------------------------------------------ real side
struct Real {
    ctx: IrContext,
    loc: Location,
    module: Module,
    ops: Vec<OpRef>,
}
fn ty(ctx: &mut IrContext, n: usize) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(s("t"), s(&format!("t{n}"))).build())
}
fn ty_no(ctx: &IrContext, t: TypeRef) -> usize {
    ctx.types.get(t).name.to_string()[1..].parse().unwrap_or(0)
}
fn split(k: &str) -> (Symbol, Symbol) {
    let (a, b) = k.split_once('.').unwrap();
    (s(a), s(b))
}

fn build(ir: &Ir, top: usize) -> Real {
    let mut ctx = IrContext::new();
    let path = ctx.paths.intern("vp.trb".to_owned());
    let loc = Location::new(path, Span::new(0, 0));
    let mut blocks = vec![];
    for b in &ir.blocks {
        let args = b.args.iter().map(|&t| BlockArgData { ty: ty(&mut ctx, t), attrs: Default::default() }).collect();
        blocks.push(ctx.create_block(BlockData { location: loc, args, ops: Default::default(), parent_region: None }));
    }
    let mut ops: Vec<OpRef> = vec![];
    // operations refer only to earlier ones except through their nested blocks, which come before them;
    // a nested operation may use a value of an enclosing block that was created later: fill operands in afterwards
    for o in &ir.ops {
        let (d, n) = split(&o.k);
        let mut b = OperationDataBuilder::new(loc, d, n);
        for (i, x) in o.d.iter().enumerate() {
            if *x < 2 {
                b = b.attr(s(&format!("d{}", i + 1)), Attribute::Symbol(s(DEC[*x])));
            }
        }
        if !o.sig.is_empty() {
            let ts: Vec<TypeRef> = o.sig.iter().map(|&t| ty(&mut ctx, t)).collect();
            let ft = ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).params(ts).build());
            b = b.attr("type", Attribute::Type(ft)).attr("sym_name", Attribute::Symbol(s("f"))).attr("keep", Attribute::Int(ops.len() as i128 + 1));
        }
        for &t in &o.rt {
            let t = ty(&mut ctx, t);
            b = b.result(t);
        }
        for rg in &o.regs {
            let bl = rg.iter().map(|&x| blocks[x - 1]).collect();
            let rg = ctx.create_region(RegionData { location: loc, blocks: bl, parent_op: None });
            b = b.region(rg);
        }
        let data = b.build(&mut ctx);
        ops.push(ctx.create_op(data));
    }
    for (i, o) in ir.ops.iter().enumerate() {
        for v in &o.o {
            let v = match *v {
                V::R(p, j) => ctx.op_result(ops[p - 1], j as u32 - 1),
                V::A(b, j) => ctx.block_arg(blocks[b - 1], j as u32 - 1),
            };
            ctx.push_op_operand(ops[i], v);
        }
    }
    for (i, b) in ir.blocks.iter().enumerate() {
        for &o in &b.ops {
            ctx.push_op(blocks[i], ops[o - 1]);
        }
    }
    let rg = ctx.create_region(RegionData { location: loc, blocks: std::iter::once(blocks[top - 1]).collect(), parent_op: None });
    let m = OperationDataBuilder::new(loc, s("core"), s("module")).attr("sym_name", Attribute::Symbol(s("m"))).region(rg).build(&mut ctx);
    let m = ctx.create_op(m);
    let module = Module::new(&ctx, m).unwrap();
    Real { ctx, loc, module, ops }
}

fn decision(ctx: &IrContext, op: OpRef, key: &'static str) -> LegalityDecision {
    match ctx.op(op).attributes.get_symbol(key).map(|x| x.to_string()).as_deref() {
        Some("legal") => LegalityDecision::Legal,
        Some("illegal") => LegalityDecision::Illegal,
        _ => LegalityDecision::Defer,
    }
}

fn target(c: &Conf) -> ConversionTarget {
    let mut t = ConversionTarget::new();
    for d in &c.legal_d {
        t = t.legal_dialect(d);
    }
    for d in &c.illegal_d {
        t = t.illegal_dialect(d);
    }
    let sp = |k: &String| {
        let (a, b) = k.split_once('.').unwrap();
        (a.to_string(), b.to_string())
    };
    for k in &c.legal_o {
        let (a, b) = sp(k);
        t = t.legal_op(&a, &b);
    }
    for k in &c.illegal_o {
        let (a, b) = sp(k);
        t = t.illegal_op(&a, &b);
    }
    for k in &c.rec_l {
        let (a, b) = sp(k);
        t = t.recursive_legal_op(&a, &b);
    }
    for k in &c.dyn_o {
        let (a, b) = sp(k);
        t = t.dynamic_op(&a, &b, |ctx, op| decision(ctx, op, "d1"));
    }
    for k in &c.rec_d {
        let (a, b) = sp(k);
        t = t.recursive_dynamic_op(&a, &b);
    }
    for d in &c.dyn_d {
        t = t.dynamic_dialect(d, |ctx, op| decision(ctx, op, "d2"));
    }
    if c.dyn_u {
        t = t.dynamic_unknown(|ctx, op| decision(ctx, op, "d3"));
    }
    t
}

fn converter(c: &Conf, r: &mut Real, mat: bool) -> TypeConverter {
    let tys: Vec<TypeRef> = (1..=4).map(|i| ty(&mut r.ctx, i)).collect();
    let mut tc = TypeConverter::new();
    for m in &c.conv {
        let mm: HashMap<TypeRef, TypeRef> = m.iter().map(|&(f, t)| (tys[f - 1], tys[t - 1])).collect();
        tc.add_conversion(move |_, t| mm.get(&t).copied());
    }
    if mat {
        let mm: HashMap<(TypeRef, TypeRef), usize> = c.mats.iter().map(|&(f, t, n)| ((tys[f - 1], tys[t - 1]), n)).collect();
        tc.set_materializer(move |ctx, loc, v, f, t| {
            let n = *mm.get(&(f, t))?;
            let (mut v, mut ops) = (v, vec![]);
            for _ in 0..n {
                let d = OperationDataBuilder::new(loc, s("m"), s("mat")).operand(v).result(t).build(ctx);
                let o = ctx.create_op(d);
                v = ctx.op_result(o, 0);
                ops.push(o);
            }
            Some(MaterializeResult { value: v, ops })
        });
    }
    tc
}

struct Pat(PatD);
impl RewritePattern for Pat {
    fn match_and_rewrite(&self, ctx: &mut IrContext, op: OpRef, rw: &mut PatternRewriter<'_>) -> bool {
        let p = &self.0;
        let (d, n) = split(&p.k);
        if ctx.op(op).dialect != d || ctx.op(op).name != n {
            return false;
        }
        let loc = ctx.op(op).location;
        let (td, tn) = split(&p.to);
        let operands = ctx.op_operands(op).to_vec();
        let results = ctx.op_result_types(op).to_vec();
        let mut prefix = vec![];
        for i in 0..p.pre {
            let mut b = OperationDataBuilder::new(loc, s("c"), s("z"));
            if p.act != "addmod"
                && let Some(&v) = operands.first()
            {
                b = b.operand(v);
            }
            let d = b.build(ctx);
            let o = ctx.create_op(d);
            match p.act {
                "claim" | "swallow" => {}
                "addmod" => rw.add_module_op(o),
                // the last one handed over together with the replacement
                "rename" if i + 1 == p.pre => prefix.push(o),
                _ => rw.insert_op(o),
            }
        }
        match p.act {
            "rename" => {
                let b = OperationDataBuilder::new(loc, td, tn).operands(operands.iter().copied()).results(results);
                let d = b.build(ctx);
                let o = ctx.create_op(d);
                rw.replace_with_prefix(prefix, o);
                true
            }
            "erase" => {
                if operands.is_empty() && !results.is_empty() {
                    return false;
                }
                rw.erase_op((0..results.len()).map(|i| operands[i % operands.len()]).collect());
                true
            }
            "insert" | "addmod" | "claim" => true,
            _ => false,
        }
    }
}

fn applicator(c: &Conf, r: &mut Real) -> PatternApplicator {
    let tc = converter(c, r, false);
    let mut a = PatternApplicator::new(tc).with_target(target(c)).with_auto_type_conversion(c.auto);
    for p in &c.pats {
        a = if p.act == "sig" { a.add_pattern(FuncSignatureConversionPattern) } else { a.add_pattern(Pat(p.clone())) };
    }
    a
}

// ------------------------------------------------- canonical form of the result
fn paths(ctx: &IrContext, r: RegionRef, pre: &[usize], out: &mut HashMap<ValueRef, Vec<usize>>) {
    for (bi, &b) in ctx.region(r).blocks.iter().enumerate() {
        let mut p = pre.to_vec();
        p.push(bi + 1);
        for (i, &v) in ctx.block_args(b).iter().enumerate() {
            let mut q = p.clone();
            q.push(0);
            q.push(i + 1);
            out.insert(v, q);
        }
        for (oi, &o) in ctx.block(b).ops.iter().enumerate() {
            let mut q = p.clone();
            q.push(oi + 1);
            for (i, &v) in ctx.op_results(o).iter().enumerate() {
                let mut w = q.clone();
                w.push(i + 1);
                out.insert(v, w);
            }
            for (ri, &rg) in ctx.op(o).regions.iter().enumerate() {
                let mut w = q.clone();
                w.push(ri + 1);
                paths(ctx, rg, &w, out);
            }
        }
    }
}
fn canon(ctx: &IrContext, r: RegionRef, vp: &HashMap<ValueRef, Vec<usize>>) -> Value {
    let bs: Vec<Value> = ctx
        .region(r)
        .blocks
        .iter()
        .map(|&b| {
            let args: Vec<usize> = ctx.block_args(b).iter().map(|&v| ty_no(ctx, ctx.value_ty(v))).collect();
            let ops: Vec<Value> = ctx
                .block(b)
                .ops
                .iter()
                .map(|&o| {
                    let d = ctx.op(o);
                    let sig: Vec<usize> = d.attributes.get_type("type").map(|t| ctx.types.get(t).params.iter().map(|&p| ty_no(ctx, p)).collect()).unwrap_or_default();
                    let keep = d.attributes.get_i128("keep").unwrap_or(0) as i64;
                    json!({
                        "k": format!("{}.{}", d.dialect, d.name),
                        "o": ctx.op_operands(o).iter().map(|v| json!(vp.get(v).cloned().unwrap_or_default())).collect::<Vec<_>>(),
                        "rt": ctx.op_results(o).iter().map(|&v| ty_no(ctx, ctx.value_ty(v))).collect::<Vec<_>>(),
                        "sig": sig, "keep": keep,
                        "regs": d.regions.iter().map(|&r| canon(ctx, r, vp)).collect::<Vec<_>>(),
                    })
                })
                .collect();
            json!({"args": args, "ops": ops})
        })
        .collect();
    json!(bs)
}
fn view(r: &Real) -> Value {
    let Some(b) = r.module.body(&r.ctx) else { return json!([]) };
    let mut vp = HashMap::new();
    paths(&r.ctx, b, &[], &mut vp);
    canon(&r.ctx, b, &vp)
}
fn legal_name(l: LegalityCheck) -> &'static str {
    match l {
        LegalityCheck::Legal => "legal",
        LegalityCheck::Illegal => "illegal",
        LegalityCheck::Unknown => "unknown",
    }
}
fn fails(v: &[IllegalOp]) -> Value {
    json!(v.iter().map(|x| json!([format!("{}.{}", x.dialect, x.name), legal_name(x.legality)])).collect::<Vec<_>>())
}

fn one(id: usize, seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let mut ir = Ir::default();
    let mut budget = if r.chance(1, 8) { r.range(12, 24) } else { r.range(4, 11) };
    let top = gen_block(&mut ir, &mut r, &[], 0, &mut budget, vec![], true);
    let c = gen_conf(&mut r);
    let fns: Vec<usize> = ir.blocks[top - 1].ops.iter().copied().filter(|&o| ir.ops[o - 1].k == "func.func").collect();
    let scope = if !fns.is_empty() && r.chance(1, 4) { *r.pick(&fns) } else { 0 };
    let steps = r.range(1, 4);
    let max = r.range(1, 4);
    let desc = json!({
        "ops": ir.ops.iter().enumerate().map(|(i, o)| json!({
            "k": o.k, "d": o.d.iter().map(|&x| DEC[x]).collect::<Vec<_>>(), "o": o.o.iter().map(|v| v.j()).collect::<Vec<_>>(), "rt": o.rt,
            "regs": o.regs, "sig": o.sig, "b": o.b, "keep": if o.sig.is_empty() { 0 } else { i + 1 },
        })).collect::<Vec<_>>(),
        "blocks": ir.blocks.iter().map(|b| json!({"args": b.args, "ops": b.ops})).collect::<Vec<_>>(),
    });
    let conf = json!({
        "ld": c.legal_d, "id": c.illegal_d, "lo": c.legal_o, "io": c.illegal_o, "rl": c.rec_l, "rd": c.rec_d, "do": c.dyn_o, "dd": c.dyn_d, "du": c.dyn_u as u8,
        "conv": c.conv, "mats": c.mats, "auto": c.auto as u8,
        "pats": c.pats.iter().map(|p| json!({"k": p.k, "act": p.act, "to": p.to, "pre": p.pre})).collect::<Vec<_>>(),
    });
    crate::case(&format!("conv {id} {desc} {conf}"));
    let run = |what: &str| -> Value {
        let res = quiet(|| {
            let mut x = build(&ir, top);
            let _ = x.loc;
            let fscope = if scope > 0 { func::Func::from_op(&x.ctx, x.ops[scope - 1]).ok() } else { None };
            match what {
                "steps" => {
                    let app = applicator(&c, &mut x).with_max_iterations(1);
                    let mut out = vec![];
                    for _ in 0..steps {
                        let res = match fscope {
                            Some(f) => app.apply_partial(&mut x.ctx, f),
                            None => app.apply_partial(&mut x.ctx, x.module),
                        };
                        let t = target(&c);
                        let (p, f) = match fscope {
                            Some(fs) => (res.verify(&x.ctx, fs, &t), res.verify_full(&x.ctx, fs, &t)),
                            None => (res.verify(&x.ctx, x.module, &t), res.verify_full(&x.ctx, x.module, &t)),
                        };
                        let lst = |r: Result<(), Vec<IllegalOp>>| r.map(|_| json!([])).unwrap_or_else(|e| fails(&e));
                        out.push(json!({"n": res.total_changes, "fix": res.reached_fixpoint as u8, "it": res.iterations, "ir": view(&x), "partial": lst(p), "full": lst(f)}));
                    }
                    json!(out)
                }
                "cast" => {
                    let tc = converter(&c, &mut x, true);
                    let res = resolve_unrealized_casts(&mut x.ctx, x.module, &tc);
                    let un: Vec<Value> = res.unresolved.iter().map(|u| json!([ty_no(&x.ctx, u.from_type), ty_no(&x.ctx, u.to_type)])).collect();
                    json!({"n": res.resolved_count, "un": un, "ir": view(&x)})
                }
                w => {
                    let app = applicator(&c, &mut x).with_max_iterations(max);
                    let _ = &app;
                    macro_rules! w2 { ($f:ident) => { match fscope { Some(f) => app.$f(&mut x.ctx, f, "edge"), None => app.$f(&mut x.ctx, x.module, "edge") } } }
                    let res = if w == "full" { w2!(apply_full_conversion) } else { w2!(apply_partial_conversion) };
                    match res {
                        Ok(a) => json!({"ok": 1, "n": a.total_changes, "it": a.iterations, "fix": a.reached_fixpoint as u8, "bad": [], "ir": view(&x), "edge": "edge"}),
                        Err(e) => json!({"ok": 0, "n": 0, "it": 0, "fix": 0, "bad": fails(e.operations()), "ir": view(&x), "edge": e.boundary()}),
                    }
                }
            }
        });
        res.unwrap_or_else(|e| json!({"panic": e}))
    };
    let (st, pa, fu, ca) = (run("steps"), run("partial"), run("full"), run("cast"));
    crate::idle();
    let bad = [&st, &pa, &fu, &ca].iter().find_map(|v| v.get("panic").cloned());
    json!({"id": format!("k{id}"), "ir": desc, "conf": conf, "top": top, "scope": scope, "max": max, "panic": bad.unwrap_or(json!("-")),
           "steps": if st.is_array() { st } else { json!([]) }, "partial": pa, "full": fu, "cast": ca})
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 500) {
        writeln!(f, "{}", one(i as usize, seed.wrapping_mul(1_000_003) + i)).unwrap();
    }
}
