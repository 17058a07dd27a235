//! Direct-style effectful programs (`tribute_control`) through the CPS
//! conversion and the shared and target pipelines.
use crate::Args;
use crate::dump::dump_program;
use crate::equiv::{arg_value, parse, quiet};
use serde_json::{Value, json};
use std::io::Write as _;
use crate::progen::Ty;
use crate::native::{self, RcPolicy};
use tribute_ir::dialect::tribute_control::OperationDeclaration;
use tribute_passes as tp;
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;

/// The operation declarations implied by the performs and handlers of a module.
pub fn declarations(ctx: &IrContext, op: OpRef, out: &mut Vec<OperationDeclaration>) {
    let d = ctx.op(op);
    if d.dialect == Symbol::new("tribute_control") && (d.name == Symbol::new("perform") || d.name == Symbol::new("handler")) {
        let perf = d.name == Symbol::new("perform");
        let a = d.attributes.get_type("ability_ref").unwrap();
        let n = d.attributes.get_symbol("op_name").unwrap();
        let k = d.attributes.get_symbol(if perf { "operation_kind" } else { "kind" }).unwrap();
        let (ps, r) = if perf {
            (ctx.op_operands(op).iter().map(|v| ctx.value_ty(*v)).collect::<Vec<_>>(), ctx.op_result_types(op)[0])
        } else {
            let Some(&b) = d.regions.first().and_then(|r| ctx.region(*r).blocks.first()) else { return };
            let r = d.attributes.get_type("operation_result_type").unwrap();
            let mut ps: Vec<_> = ctx.block_args(b).iter().map(|v| ctx.value_ty(*v)).collect();
            if let Some(l) = ps.last() {
                let td = ctx.types.get(*l);
                if td.name == Symbol::new("resume_token") {
                    ps.pop();
                }
            }
            (ps, r)
        };
        if !out.iter().any(|x| x.ability_ref == a && x.op_name == n) {
            out.push(OperationDeclaration::new(a, n, k, ps, r));
        }
    }
    for r in d.regions.iter() {
        for b in ctx.region(*r).blocks.iter() {
            for o in ctx.block(*b).ops.iter() {
                declarations(ctx, *o, out);
            }
        }
    }
}

pub fn to_cps(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    let mut ds = vec![];
    declarations(ctx, m.op(), &mut ds);
    tp::tribute_control_to_cps::tribute_control_to_cps(ctx, m, &ds).map_err(|e| e.to_string())
}

fn core_mod(ctx: &IrContext, m: Module) -> Result<core_dialect::Module, String> {
    core_dialect::Module::from_op(ctx, m.op()).map_err(|_| "not a module".to_string())
}

/// The shared middle end, as src/pipeline.rs sequences it.
pub fn shared(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    let cm = core_mod(ctx, m)?;
    let e = |e: trunk_ir::pass::PassError| e.to_string();
    let mut pm = PassManager::new();
    pm.add_pass(tp::lower_closure_lambda::LowerClosureLambda)
        .add_pass(tp::intrinsic_to_arith::LowerIntrinsicToArith)
        .add_pass(tp::list_intrinsics::LowerListIntrinsics)
        .add_pass(tp::io_lowering::LowerIoIntrinsics)
        .add_pass(tp::closure_lower::PrepareClosureLowering);
    pm.nest::<func_dialect::Func>().add_pass(tp::closure_lower::LowerClosuresInFunc);
    pm.run(ctx, cm).map_err(e)?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tp::lower_ability_perform::LowerAbilityPerform)
        .add_pass(tp::tail_resumptive::ConvertTailResumptive);
    pm.run(ctx, cm).map_err(e)?;
    let mut pm = PassManager::new();
    pm.add_pass(tp::resolve_evidence::ResolveEvidenceDispatch);
    pm.run(ctx, cm).map_err(e)?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(tp::lower_handle_dispatch::LowerHandleDispatch);
    pm.run(ctx, cm).map_err(e)?;
    Ok(())
}

/// run_{native,wasm}_target_pipeline
pub fn target(ctx: &mut IrContext, m: Module, nat: bool, opt: bool) -> Result<(), String> {
    if opt {
        trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, an| {
            trunk_ir::transforms::inline::inline_functions(ctx, m, an);
        });
    }
    if tp::target_abi::has_root_entry_contract(ctx, m) {
        tp::target_abi::lower_cps_signatures_to_physical(ctx, m).map_err(|e| e.to_string())?;
        tp::target_abi::compose_root_entry_bridge(ctx, m).map_err(|e| e.to_string())?;
    }
    let cm = core_mod(ctx, m)?;
    if nat {
        tp::native::evidence::prepare_native_evidence_runtime(ctx, m);
        let mut pm = PassManager::new();
        pm.nest::<func_dialect::Func>().add_pass(tp::native::evidence::LowerEvidenceToNative);
        pm.run(ctx, cm).map_err(|e| e.to_string())?;
    }
    if opt {
        trunk_ir::transforms::global_dce::eliminate_dead_functions(ctx, m);
        let mut pm = PassManager::new();
        pm.nest::<func_dialect::Func>()
            .add_pass(trunk_ir::transforms::canonicalize_pass())
            .add_pass(trunk_ir::transforms::dce_pass(Default::default()));
        pm.run(ctx, cm).map_err(|e| e.to_string())?;
    }
    let tc = tp::generic_type_converter(ctx);
    resolve_unrealized_casts(ctx, m, &tc);
    Ok(())
}

/// Declarations of external functions get the body the native backend expects of them.
pub fn bodies(text: &str) -> String {
    let f = |l: &str| {
        let ext = l.trim().starts_with("func.func @vp_") && l.contains("abi = \"C\"");
        if ext { format!("{l} {{\n    func.unreachable\n  }}\n") } else { format!("{l}\n") }
    };
    text.lines().map(f).collect()
}

pub fn compile_native(text: &str, opt: bool, pol: RcPolicy) -> Result<Vec<u8>, String> {
    let (mut ctx, m) = parse(text)?;
    let t = panics(quiet(|| {
        to_cps(&mut ctx, m)?;
        shared(&mut ctx, m)?;
        Ok(trunk_ir::printer::print_module(&ctx, m.op()))
    }))?;
    let (mut ctx, m) = parse(&bodies(&t))?;
    let r = quiet(|| {
        target(&mut ctx, m, true, opt)?;
        let ro = native::prepare(&mut ctx, m, pol)?;
        native::finish(&mut ctx, m, &ro)
    });
    match r {
        Ok(x) => x,
        Err(e) => Err(format!("panic: {e}")),
    }
}

pub fn panics<T>(r: Result<Result<T, String>, String>) -> Result<T, String> {
    match r {
        Ok(x) => x,
        Err(e) => Err(format!("panic: {e}")),
    }
}

/// `main` reads the arguments, calls the entry function and reports its result.
fn with_main(text: &str, ps: &[Ty]) -> String {
    let mut s = text.trim_end().trim_end_matches('}').to_string();
    for t in ["i1", "i32", "i64"] {
        s += &format!("  tribute_control.func @vp_arg_{t}(%a: core.i32) -> core.{t} convention(direct) attributes {{abi = \"C\"}}\n");
    }
    s += "  tribute_control.func @vp_ret_i64(%a: core.i64) -> core.i64 convention(direct) attributes {abi = \"C\"}\n";
    s += "  tribute_control.func @main() -> core.nil convention(direct) {\n";
    let mut l = vec![];
    for (i, t) in ps.iter().enumerate() {
        let t = match t {
            Ty::I1 => "i1",
            Ty::I32 => "i32",
            _ => "i64",
        };
        s += &format!("    %i{i} = arith.const {{value = {i}}} : core.i32\n    %a{i} = tribute_control.call %i{i} {{callee = @vp_arg_{t}}} : core.{t}\n");
        l.push(format!("%a{i}"));
    }
    let sep = if l.is_empty() { "" } else { " " };
    s += &format!("    %r = tribute_control.call {}{sep}{{callee = @entry}} : core.i64\n    %q = tribute_control.call %r {{callee = @vp_ret_i64}} : core.i64\n", l.join(", "));
    s + "    %n = arith.const {value = unit} : core.nil\n    tribute_control.return %n\n  }\n}\n"
}

/// Declarations of external functions become imports.
pub fn imports(text: &str) -> String {
    let mut out = String::new();
    for l in text.lines() {
        let t = l.trim();
        if t.starts_with("func.func @vp_") && t.contains("abi = \"C\"") {
            let (name, r) = t["func.func @".len()..].split_once('(').unwrap();
            let (ps, r) = r.split_once(") -> ").unwrap();
            let ret = r.split(' ').next().unwrap();
            let mut ts = vec![ret.to_string()];
            ts.extend(ps.split(", ").filter(|p| !p.is_empty()).map(|p| p.split_once(": ").unwrap().1.to_string()));
            out += &format!("  wasm.import_func {{module = @env, name = @{name}, sym_name = @{name}, type = core.func({})}}\n", ts.join(", "));
        } else {
            out += l;
            out.push('\n');
        }
    }
    out
}

pub fn compile_wasm(text: &str, opt: bool) -> Result<Vec<u8>, String> {
    let (mut ctx, m) = parse(text)?;
    let t = panics(quiet(|| {
        to_cps(&mut ctx, m)?;
        shared(&mut ctx, m)?;
        Ok(trunk_ir::printer::print_module(&ctx, m.op()))
    }))?;
    crate::wasm::compile(&imports(&t), opt)
}

/// Cases for EffEquiv: a direct-style program and what each conversion made of it.
pub fn run(a: &Args) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let (seed, n, na) = (a.u("seed", 1), a.u("n", 10), a.u("args", 3) as usize);
    let profile = a.s("profile", "effects");
    let dir = a.s("dir", "");
    let mut cases: Vec<Value> = vec![];
    let (mut objs, mut mods, mut hows) = (vec![], vec![], vec![]);
    let mut files: Vec<_> = if profile == "files" { std::fs::read_dir(a.s("files", "")).unwrap().map(|e| e.unwrap().path()).collect() } else { vec![] };
    files.sort();
    let n = if profile == "files" { files.len() as u64 } else { n };
    for i in 0..n {
        let mut g = crate::effgen::G::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
        g.pure_ = profile != "effects";
        g.direct = profile == "direct";
        let (text, sig) = if profile == "files" {
            let t = std::fs::read_to_string(&files[i as usize]).unwrap();
            (t, crate::progen::Sig { name: "entry".into(), params: vec![], ret: Ty::I64, recursive: false })
        } else {
            g.module()
        };
        let args: Vec<Vec<i128>> = (0..na).map(|_| sig.params.iter().map(|t| g.arg(*t)).collect()).collect();
        let id = match files.get(i as usize) {
            Some(f) => f.file_stem().unwrap().to_string_lossy().to_string(),
            None => format!("{profile}-{seed}-{i}"),
        };
        crate::case(&text);
        let (mut ctx, m) = match parse(&text) {
            Ok(x) => x,
            Err(e) => panic!("{id}: {e}\n{text}"),
        };
        let av: Vec<Value> = args.iter().map(|v| Value::Array(v.iter().zip(&sig.params).map(|(x, t)| arg_value(*t, *x)).collect())).collect();
        let mut progs = vec![json!({"p": dump_program(&ctx, m), "how": "source"})];
        let bad = |how: &str, e: &str| json!({"p": {"funcs": {"none": {"ext": true}}}, "how": format!("{how}: {e}")});
        match panics(quiet(|| to_cps(&mut ctx, m))) {
            Err(e) => progs.push(bad("cps", &e)),
            Ok(()) => {
                progs.push(json!({"p": dump_program(&ctx, m), "how": "cps"}));
                if profile == "pure" || profile == "direct" {
                    for k in 1..3 {
                        match panics(quiet(|| closures(&mut ctx, m, k))) {
                            Ok(()) => progs.push(json!({"p": dump_program(&ctx, m), "how": format!("closures{k}")})),
                            Err(e) => {
                                progs.push(bad(&format!("closures{k}"), &e));
                                break;
                            }
                        }
                    }
                }
            }
        }
        if !dir.is_empty() {
            let t = with_main(&text, &sig.params);
            for opt in [false, true] {
                let key = format!("{id}/n{}", opt as u8);
                let r = compile_native(&t, opt, RcPolicy::bits(if opt { 7 } else { i % 8 }));
                hows.push((key.clone(), cases.len(), format!("native code, optimized: {opt}"), r.as_ref().err().cloned()));
                if let Ok(b) = r {
                    objs.push((key, b, args.clone()));
                }
                if !opt {
                    continue;
                }
                let key = format!("{id}/w{}", opt as u8);
                let r = compile_wasm(&t, opt);
                hows.push((key.clone(), cases.len(), format!("wasm code, optimized: {opt}"), r.as_ref().err().cloned()));
                if let Ok(b) = r {
                    mods.push((key, b, args.clone()));
                }
            }
        }
        let obs: Vec<Vec<Value>> = vec![vec![]; args.len()];
        cases.push(json!({"id": id, "entry": "entry", "args": av, "progs": progs, "obs": obs, "text": text}));
    }
    crate::idle();
    if !dir.is_empty() {
        let dir = std::path::Path::new(&dir);
        std::fs::create_dir_all(dir).unwrap();
        let fail = |e: String| -> Vec<Value> {
            eprintln!("{e}");
            std::process::exit(2)
        };
        let mut seen = crate::observe::run_all(dir, &a.s("driver", ""), &objs, false, "").unwrap_or_else(fail);
        seen.extend(crate::wasm::run_node(dir, &a.s("jsdriver", ""), &mods).unwrap_or_else(fail));
        for (key, c, how, err) in &hows {
            if let Some(e) = err {
                for o in cases[*c]["obs"].as_array_mut().unwrap() {
                    o.as_array_mut().unwrap().push(json!({"how": how, "o": {"st": format!("not compiled: {e}"), "out": [], "rv": []}}));
                }
            }
            for (j, x) in seen.iter().filter(|x| x["case"] == **key).enumerate() {
                cases[*c]["obs"][j].as_array_mut().unwrap().push(json!({"how": how, "o": crate::observe::outcome(x)}));
            }
        }
    }
    for c in cases {
        let _ = writeln!(out, "{c}");
    }
}

/// closure.lambda -> closure.new on lifted functions (1), then to structures of code and environment (2)
fn closures(ctx: &mut IrContext, m: Module, k: usize) -> Result<(), String> {
    let cm = core_mod(ctx, m)?;
    let mut pm = PassManager::new();
    if k == 1 {
        pm.add_pass(tp::lower_closure_lambda::LowerClosureLambda);
    } else {
        pm.add_pass(tp::closure_lower::PrepareClosureLowering);
        pm.nest::<func_dialect::Func>().add_pass(tp::closure_lower::LowerClosuresInFunc);
    }
    pm.run(ctx, cm).map_err(|e| e.to_string())?;
    Ok(())
}

/// Debugging aid: --stage cps|shared|native|wasm
pub fn show(a: &Args) {
    let text = std::fs::read_to_string(a.s("in", "")).unwrap();
    let stage = a.s("stage", "cps");
    let text = if a.u("main", 0) == 1 { with_main(&text, &[Ty::I32, Ty::I1]) } else { text };
    let (mut ctx, m) = parse(&text).unwrap();
    let opt = a.u("opt", 1) == 1;
    let r = (|| -> Result<(), String> {
        to_cps(&mut ctx, m)?;
        if stage == "cps" {
            return Ok(());
        }
        shared(&mut ctx, m)?;
        if stage == "shared" {
            return Ok(());
        }
        target(&mut ctx, m, stage != "wasm", opt)?;
        if stage == "target" || stage == "wasm" {
            return Ok(());
        }
        let ro = native::prepare(&mut ctx, m, RcPolicy::bits(a.u("rc", 7)))?;
        if stage == "native" {
            return Ok(());
        }
        let o = native::finish(&mut ctx, m, &ro)?;
        std::fs::write(a.s("out", "/tmp/x.o"), o).unwrap();
        Ok(())
    })();
    if stage == "wasm" {
        match compile_wasm(&text, opt) {
            Ok(b) => std::fs::write(a.s("out", "/tmp/x.wasm"), b).unwrap(),
            Err(e) => println!("{e}"),
        }
    }
    println!("{}", trunk_ir::printer::print_module(&ctx, m.op()));
    if let Err(e) = r {
        println!("ERROR {e}");
    }
}

/// One damaged line or token of a program text.
fn damage(t: &str, r: &mut crate::rng::Rng) -> String {
    let mut ls: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    let i = r.below(ls.len());
    match r.below(4) {
        0 => {
            ls.remove(i);
        }
        1 => {
            let j = r.below(ls.len());
            let l = ls[j].clone();
            ls.insert(i, l);
        }
        2 => {
            let j = r.below(ls.len());
            ls.swap(i, j);
        }
        _ => {
            const W: [(&str, &str); 26] = [
                ("core.i64", "core.i32"), ("core.i32", "core.i64"), ("core.i1", "core.i64"), ("@op", "@fn"), ("@fn", "@op"),
                ("(direct)", "(cps)"), ("(cps)", "(direct)"), ("(evidence_direct)", "(direct)"), ("(direct)", "(evidence_direct)"),
                ("convention = 2", "convention = 1"), ("convention = 1", "convention = 2"), ("convention = 0", "convention = 2"),
                ("convention = 2", "convention = 0"), ("index = 0", "index = 1"), ("tribute.closure_environment_index = 0, ", ""),
                ("@State", "@Amb"), ("@get", "@put"), ("@f0", "@f1"), ("@f1", "@f7"), ("captures []", "captures [%v1]"),
                ("core.never", "core.i64"), ("core.never", "core.nil"), ("tribute_rt.anyref", "core.i64"), ("resume_token", "callable"),
                ("tribute_control.yield", "tribute_control.return"), ("tail_call_indirect", "call_indirect"),
            ];
            let c: Vec<&(&str, &str)> = W.iter().filter(|w| t.contains(w.0)).collect();
            if !c.is_empty() {
                let w = c[r.below(c.len())];
                let at: Vec<usize> = t.match_indices(w.0).map(|x| x.0).collect();
                let at = at[r.below(at.len())];
                return format!("{}{}{}", &t[..at], w.1, &t[at + w.0.len()..]);
            }
        }
    }
    ls.join("\n") + "\n"
}

/// Histories of conversion calls on well- and ill-formed modules: what each
/// call answered, and the module (as text, numbered) before and after it.
pub fn reject(a: &Args) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let (seed, n) = (a.u("seed", 1), a.u("n", 10));
    for i in 0..n {
        let mut g = crate::effgen::G::new(seed.wrapping_mul(7_000_003).wrapping_add(i));
        let phys = i % 3 == 2;
        g.pure_ = phys;
        let text = g.module().0;
        let mut r = crate::rng::Rng::new(seed.wrapping_mul(31).wrapping_add(i));
        let src = text.clone();
        let mut tries = 0;
        let (mut ctx, m, t) = loop {
            let mut t = src.clone();
            for _ in 0..if phys { 0 } else { r.below(3) } {
                t = damage(&t, &mut r);
            }
            tries += 1;
            if let Ok(Ok((mut c, m))) = quiet(|| parse(&t)) {
                if quiet(|| trunk_ir::printer::print_module(&c, m.op())).is_err() {
                    continue;
                }
                if phys {
                    let _ = quiet(|| to_cps(&mut c, m).and_then(|_| shared(&mut c, m)));
                    for _ in 0..r.below(3) {
                        damage_ir(&mut c, m, &mut r);
                    }
                }
                break (c, m, t);
            }
            if tries > 200 {
                let (c, m) = parse(&src).unwrap();
                break (c, m, src.clone());
            }
        };
        crate::case(&t);
        let mut texts: Vec<String> = vec![];
        let mut num = |ctx: &IrContext| {
            let mut s = trunk_ir::printer::print_module(ctx, m.op());
            for (n, t) in ctx.type_aliases() {
                s += &format!("{n} {}\n", trunk_ir::printer::print_type(ctx, *t));
            }
            match texts.iter().position(|x| *x == s) {
                Some(p) => p + 1,
                None => {
                    texts.push(s);
                    texts.len()
                }
            }
        };
        let mut calls = vec![];
        for _ in 0..2 {
            let before = num(&ctx);
            let what = if phys { "lower_cps_signatures_to_physical" } else { "tribute_control_to_cps" };
            let res = quiet(|| {
                if phys {
                    tp::target_abi::lower_cps_signatures_to_physical(&mut ctx, m).map_err(|e| e.to_string())
                } else {
                    to_cps(&mut ctx, m)
                }
            });
            let (st, msg) = match &res {
                Ok(Ok(())) => ("ok", String::new()),
                Ok(Err(e)) => ("rejected", e.clone()),
                Err(e) => ("panic", e.clone()),
            };
            let after = num(&ctx);
            calls.push(json!({"what": what, "st": st, "msg": msg.chars().take(200).collect::<String>(), "before": before, "after": after}));
            if st != "rejected" {
                break;
            }
        }
        let _ = writeln!(out, "{}", json!({"id": format!("rej-{seed}-{i}"), "calls": calls, "text": t}));
    }
    crate::idle();
}

fn all_ops(ctx: &IrContext, op: OpRef, out: &mut Vec<OpRef>) {
    out.push(op);
    for r in ctx.op(op).regions.iter() {
        for b in ctx.region(*r).blocks.iter() {
            for o in ctx.block(*b).ops.iter() {
                all_ops(ctx, *o, out);
            }
        }
    }
}

/// One wrong attribute, type or operand somewhere in a lowered module.
fn damage_ir(ctx: &mut IrContext, m: Module, r: &mut crate::rng::Rng) {
    use trunk_ir::types::Attribute;
    let mut ops = vec![];
    all_ops(ctx, m.op(), &mut ops);
    ops.remove(0);
    for _ in 0..100 {
        let op = *r.pick(&ops);
        let keys: Vec<Symbol> = ctx.op(op).attributes.keys().cloned().collect();
        let types: Vec<_> = ops.iter().flat_map(|o| ctx.op_result_types(*o).to_vec()).collect();
        match r.below(4) {
            0 | 1 if !keys.is_empty() => {
                let k = *r.pick(&keys);
                let v = ctx.op(op).attributes.get(k).unwrap().clone();
                let others: Vec<Attribute> = ops.iter().filter_map(|o| ctx.op(*o).attributes.get(k).cloned()).filter(|x| *x != v).collect();
                match v {
                    _ if k == Symbol::new("sym_name") => continue,
                    Attribute::Int(n) if r.chance(1, 2) => {
                        ctx.op_mut(op).attributes.insert(k, Attribute::Int((n + 1 + r.below(2) as i128) % 3));
                    }
                    _ if !others.is_empty() => {
                        ctx.op_mut(op).attributes.insert(k, r.pick(&others).clone());
                    }
                    _ if k == Symbol::new("callee") || k == Symbol::new("type") || k == Symbol::new("func_ref") => continue,
                    _ => {
                        ctx.op_mut(op).attributes.remove(k);
                    }
                }
            }
            2 if !ctx.op_result_types(op).is_empty() && !types.is_empty() => {
                let t = *r.pick(&types);
                ctx.set_op_result_type(op, 0, t);
            }
            3 if ctx.op_operands(op).len() > 1 => {
                let o = ctx.op_operands(op).to_vec();
                ctx.set_op_operand(op, 0, o[1]);
            }
            _ => continue,
        }
        return;
    }
}
