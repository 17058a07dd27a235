//! Modules of functions referring to each other, as the global dead-function
//! elimination and the call-graph analysis see them (ModGraph).
use crate::Args;
use crate::equiv::{parse, quiet};
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::symbol::Symbol;
use trunk_ir::transforms::{call_graph, global_dce};
use trunk_ir::types::Attribute;

#[derive(Clone, Default)]
struct F {
    sym: String,
    abi: bool,
    body: bool,
    refs: Vec<(char, String)>, // c call, t tail call, k constant
}
#[derive(Clone)]
enum Item {
    F(usize),
    Export(String),
    M(String, bool, Vec<Item>), // name, carries a `name` attribute
}

fn emit_ref(out: &mut String, n: &mut usize, pad: &str, k: char, to: &str) {
    *n += 1;
    match k {
        'c' => {
            let _ = writeln!(out, "{pad}%v{n} = func.call {{callee = @{}}} : core.i32", sym(to));
        }
        'k' => {
            let _ = writeln!(out, "{pad}%v{n} = func.constant {{func_ref = @{}}} : core.func(core.i32)", sym(to));
        }
        _ => unreachable!(),
    }
}

fn sym(s: &str) -> String {
    if s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { s.to_string() } else { format!("\"{s}\"") }
}

fn emit_func(out: &mut String, f: &F, r: &mut Rng) {
    let attrs = if f.abi { " attributes {abi = \"C\"}" } else { "" };
    if !f.body {
        let _ = writeln!(out, "  func.func @{}() -> core.i32{attrs}", sym(&f.sym));
        return;
    }
    let _ = writeln!(out, "  func.func @{}(%p: core.i1) -> core.i32{attrs} {{", sym(&f.sym));
    let mut n = 0;
    let mut tails: Vec<(char, String)> = f.refs.iter().filter(|x| x.0 == 't').cloned().collect();
    let tail = tails.pop();
    // references are spread over the function: straight line, nested regions, other blocks
    let mode = r.below(3);
    if mode == 2 {
        let _ = writeln!(out, "  ^bb0:");
    }
    let (mut a, mut b) = (vec![], vec![]);
    for x in f.refs.iter().filter(|x| x.0 != 't') {
        if r.chance(1, 2) { a.push(x.clone()) } else { b.push(x.clone()) }
    }
    for x in &a {
        emit_ref(out, &mut n, "    ", x.0, &x.1);
    }
    // all tail calls but the last leave from the branch of a conditional or from an inner block
    let inner = if mode == 2 { tails.pop() } else { None };
    for (_, to) in &tails {
        let _ = writeln!(out, "    scf.if %p {{\n      func.tail_call {{callee = @{}}}\n    }} {{\n      scf.yield\n    }}", sym(to));
    }
    match mode {
        0 => {
            for x in &b {
                emit_ref(out, &mut n, "    ", x.0, &x.1);
            }
        }
        1 => {
            let depth = r.range(1, 3);
            for d in 0..depth {
                let _ = writeln!(out, "    %i{d} = scf.if %p : core.i32 {{");
            }
            for x in &b {
                emit_ref(out, &mut n, "      ", x.0, &x.1);
            }
            let _ = writeln!(out, "    %y = arith.const {{value = 1}} : core.i32\n    scf.yield %y");
            for d in (0..depth).rev() {
                let _ = writeln!(out, "    }} {{\n    %z{d} = arith.const {{value = 2}} : core.i32\n    scf.yield %z{d}\n    }}");
                if d > 0 {
                    let _ = writeln!(out, "    scf.yield %i{d}");
                }
            }
        }
        _ => {
            let dead = r.chance(1, 3);
            if dead {
                let _ = writeln!(out, "    cf.br [^bb2]");
            } else {
                let _ = writeln!(out, "    cf.cond_br %p [^bb1, ^bb2]");
            }
            let _ = writeln!(out, "  ^bb1:");
            for x in &b {
                emit_ref(out, &mut n, "    ", x.0, &x.1);
            }
            match inner {
                Some((_, to)) => {
                    let _ = writeln!(out, "    func.tail_call {{callee = @{}}}\n  ^bb2:", sym(&to));
                }
                None => {
                    let _ = writeln!(out, "    cf.br [^bb2]\n  ^bb2:");
                }
            }
        }
    }
    match tail {
        Some((_, to)) => {
            let _ = writeln!(out, "    func.tail_call {{callee = @{}}}", sym(&to));
        }
        None => {
            let _ = writeln!(out, "    %r = arith.const {{value = 0}} : core.i32\n    func.return %r");
        }
    }
    let _ = writeln!(out, "  }}");
}

fn emit(out: &mut String, items: &[Item], fs: &[F], r: &mut Rng) {
    for it in items {
        match it {
            Item::F(i) => emit_func(out, &fs[*i], r),
            Item::Export(n) => {
                let _ = writeln!(out, "  wasm.export_func {{func = @{}, name = \"x\"}}", sym(n));
            }
            Item::M(n, _, sub) => {
                let _ = writeln!(out, "  core.module @{n} {{");
                emit(out, sub, fs, r);
                let _ = writeln!(out, "  }}");
            }
        }
    }
}

/// Walks the module and the description together.
fn tag(ctx: &mut IrContext, region: RegionRef, items: &[Item], path: &[String], dce_path: &[String], ops: &mut HashMap<OpRef, usize>, out: &mut Vec<Value>, fs: &[F], exports: &mut Vec<String>, top: bool, deep: &mut Vec<Value>) {
    let blocks = ctx.region(region).blocks.to_vec();
    let list: Vec<OpRef> = blocks.iter().flat_map(|b| ctx.block(*b).ops.to_vec()).collect();
    assert_eq!(list.len(), items.len());
    for (op, it) in list.into_iter().zip(items) {
        match it {
            Item::F(i) => {
                ops.insert(op, *i);
                let f = &fs[*i];
                out.push(json!({"id": i + 1, "sym": f.sym, "path": path, "dpath": dce_path, "abi": f.abi as u8, "top": top as u8,
                    "refs": f.refs.iter().map(|x| json!([x.0.to_string(), x.1])).collect::<Vec<_>>()}));
            }
            Item::Export(n) => {
                exports.push(n.clone());
                deep.push(json!({"f": n, "top": top as u8}));
            }
            Item::M(n, named, sub) => {
                let mut p = path.to_vec();
                p.push(n.clone());
                let mut d = dce_path.to_vec();
                if *named {
                    ctx.op_mut(op).attributes.insert(Symbol::new("name"), Attribute::Symbol(Symbol::from_dynamic(n)));
                    d.push(n.clone());
                }
                let rs = ctx.op(op).regions.to_vec();
                if sub.is_empty() {
                    continue;
                }
                tag(ctx, rs[0], sub, &p, &d, ops, out, fs, exports, false, deep);
            }
        }
    }
}

fn kept(ctx: &IrContext, region: RegionRef, ops: &HashMap<OpRef, usize>, out: &mut Vec<usize>) {
    for b in ctx.region(region).blocks.iter() {
        for op in ctx.block(*b).ops.iter() {
            if let Some(i) = ops.get(op) {
                out.push(i + 1);
            }
            if ctx.op(*op).dialect == Symbol::new("core") && ctx.op(*op).name == Symbol::new("module") {
                for r in ctx.op(*op).regions.iter() {
                    kept(ctx, *r, ops, out);
                }
            }
        }
    }
}

struct Case {
    id: String,
    fs: Vec<F>,
    items: Vec<Item>,
    extra: Vec<String>,
    recursive: bool,
}

fn run_case(c: Case, seed: u64) -> Value {
    let mut text = String::from("core.module @m {\n");
    let mut r = Rng::new(seed);
    emit(&mut text, &c.items, &c.fs, &mut r);
    text.push_str("}\n");
    crate::case(&text);
    let (mut ctx, m) = parse(&text).unwrap_or_else(|e| {
        eprintln!("generator: {e}\n{text}");
        std::process::exit(2);
    });
    let (mut ops, mut fl, mut exports, mut deep) = (HashMap::new(), vec![], vec![], vec![]);
    let body = m.body(&ctx).unwrap();
    tag(&mut ctx, body, &c.items, &[], &[], &mut ops, &mut fl, &c.fs, &mut exports, true, &mut deep);
    let mut case = json!({"id": c.id, "text": text, "funcs": fl, "exports": deep, "extra": c.extra, "recursive": c.recursive as u8});
    let cg = quiet(|| observe_cg(&ctx, m, &ops));
    case["cg"] = cg.unwrap_or_else(|e| json!({"panic": e}));
    let cfg = global_dce::GlobalDceConfig { extra_entry_points: c.extra.clone(), recursive: c.recursive };
    let dce = quiet(|| {
        let res = global_dce::eliminate_dead_functions_with_config(&mut ctx, m, cfg.clone());
        let mut k = vec![];
        kept(&ctx, body, &ops, &mut k);
        let mut names: Vec<String> = res.removed_functions.iter().map(|s| s.to_string()).collect();
        names.sort();
        let again = global_dce::eliminate_dead_functions_with_config(&mut ctx, m, cfg);
        // nothing of a removed function may stay behind in use lists, and what is kept still prints and parses
        let p = trunk_ir::printer::print_module(&ctx, m.op());
        let ok = parse(&p).is_ok();
        json!({"kept": k, "removed": names, "count": res.removed_count, "again": again.removed_count, "parses": ok as u8})
    });
    case["dce"] = dce.unwrap_or_else(|e| json!({"kept": [], "removed": [format!("panic {e}")], "count": -1, "again": -1, "parses": 0}));
    case
}

fn observe_cg(ctx: &IrContext, m: Module, ops: &HashMap<OpRef, usize>) -> Value {
    let g = call_graph::build_call_graph(ctx, m);
    let mut edges: Vec<(String, String)> = g.edges.iter().flat_map(|(a, s)| s.iter().map(|b| (a.to_string(), b.to_string()))).collect();
    edges.sort();
    let mut defs: Vec<(String, usize)> = g.func_ops.iter().map(|(n, o)| (n.to_string(), ops[o] + 1)).collect();
    defs.sort();
    let mut consts: Vec<String> = g.has_constant_ref.iter().map(|s| s.to_string()).collect();
    consts.sort();
    let mut sites: Vec<(String, usize)> = g.call_site_count.iter().map(|(n, k)| (n.to_string(), *k)).collect();
    sites.sort();
    let scc: Vec<(String, u32)> = call_graph::tarjan_scc(&g).into_iter().map(|(n, k)| (n.to_string(), k)).collect();
    let mut rec: Vec<String> = call_graph::recursive_functions(&g).iter().map(|s| s.to_string()).collect();
    rec.sort();
    json!({"edges": edges, "defs": defs, "consts": consts, "sites": sites, "scc": scc, "rec": rec})
}

fn random(seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let big = r.chance(1, 12);
    let n = if big { r.range(12, 26) } else { r.range(1, 9) };
    let base = ["f", "g", "h", "main", "_start", "n1::f", "n2::g", "n1::n2::h", "helper", "n1::main"];
    let mut fs: Vec<F> = vec![];
    for k in 0..n {
        // large modules: distinct names, so that chains and cycles get long
        let name = if big && k > 0 { format!("q{k}") } else { r.pick(&base).to_string() };
        fs.push(F { sym: name, abi: r.chance(1, 8), body: big || r.chance(7, 8), refs: vec![] });
    }
    // place them in nested modules
    let mut items: Vec<Item> = vec![];
    let nested = r.chance(1, 2);
    let mut subs: Vec<(String, bool, Vec<Item>)> = vec![];
    if nested {
        for k in 0..r.range(1, 3) {
            subs.push((format!("n{}", k + 1), r.chance(1, 2), vec![]));
        }
    }
    let mut names: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    names.push("ext".into());
    // dense or sparse graphs; chains matter most for reachability
    let density = *r.pick(&[1usize, 2, 4]);
    for i in 0..n {
        let k = r.below(density + 1);
        for _ in 0..k {
            let to = if r.chance(4, 5) { fs[r.below(n)].sym.clone() } else { r.pick(&names).clone() };
            let kind = *r.pick(&['c', 'c', 'k', 't']);
            if fs[i].body {
                fs[i].refs.push((kind, to));
            }
        }
        let it = Item::F(i);
        if subs.is_empty() || r.chance(1, 2) {
            items.push(it);
        } else {
            let s = r.below(subs.len());
            subs[s].2.push(it);
        }
    }
    for _ in 0..r.below(3) {
        if r.chance(1, 2) {
            let to = r.pick(&names).clone();
            let e = Item::Export(to);
            if subs.is_empty() || r.chance(2, 3) { items.push(e) } else { subs[0].2.push(e) }
        }
    }
    while subs.len() > 1 && r.chance(2, 3) {
        let s = subs.pop().unwrap();
        let l = subs.len() - 1;
        subs[l].2.push(Item::M(s.0, s.1, s.2));
    }
    for s in subs {
        let at = r.below(items.len() + 1);
        items.insert(at, Item::M(s.0, s.1, s.2));
    }
    let mut extra = vec![];
    for _ in 0..r.below(3) {
        extra.push(match r.below(4) {
            0 => r.pick(&names).clone(),
            1 => format!("{}::{}", r.pick(&["n1", "n2", "n1::n2", "n1::n2::n3", "n2::n3"]), fs[r.below(n)].sym),
            _ => fs[r.below(n)].sym.clone(),
        });
    }
    Case { id: format!("r{seed}"), fs, items, extra, recursive: r.chance(4, 5) }
}

/// Every call graph over `main`, `b`, `c` with every kind of reference.
fn exhaustive(out: &mut Vec<Case>) {
    let names = ["main", "b", "c"];
    for mask in 0..512u32 {
        for kind in 0..3 {
            let mut fs = vec![];
            for i in 0..3 {
                let mut refs = vec![];
                for j in 0..3 {
                    if mask >> (3 * i + j) & 1 == 1 {
                        let k = match kind {
                            0 => 'c',
                            1 => 'k',
                            _ => if refs.iter().any(|x: &(char, String)| x.0 == 't') { 'c' } else { 't' },
                        };
                        refs.push((k, names[j].to_string()));
                    }
                }
                fs.push(F { sym: names[i].into(), abi: false, body: true, refs });
            }
            out.push(Case { id: format!("x{mask}-{kind}"), fs, items: vec![Item::F(2), Item::F(0), Item::F(1)], extra: vec![], recursive: true });
        }
    }
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    let mut cases = vec![];
    if a.u("exhaustive", 1) == 1 {
        exhaustive(&mut cases);
    }
    for i in 0..a.u("n", 100) {
        cases.push(random(seed.wrapping_mul(1_000_003).wrapping_add(i)));
    }
    for (i, c) in cases.into_iter().enumerate() {
        writeln!(f, "{}", run_case(c, seed.wrapping_add(i as u64))).unwrap();
    }
}
