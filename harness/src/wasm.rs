//! The wasm compilation pipeline (as /repo/src/pipeline.rs drives it), run under
//! node, with what was observed attached to the cases for IrEquiv.
use crate::Args;
use crate::equiv::{parse, quiet, sources};
use crate::observe::{case_json, outcome, with_main};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::path::Path;
use std::process::{Command, Stdio};
use tribute_passes::wasm::lower::{finalize_wasm_gc_types, lower_to_wasm};
use trunk_ir::context::IrContext;
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::rewrite::Module;

/// external functions become imports
pub fn import_externs(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    let tail = " attributes {abi = \"C\"} {\n    func.unreachable\n  }";
    while let Some(i) = rest.find(tail) {
        let head = &rest[..i];
        let at = head.rfind("func.func @").unwrap();
        if head[at..].starts_with("func.func @\"__tribute_") {
            // a library function the backend knows
            out.push_str(&rest[..i + tail.len()]);
            rest = &rest[i + tail.len()..];
            continue;
        }
        out.push_str(&head[..at]);
        let sig = &head[at + "func.func @".len()..];
        let (name, r) = sig.split_once('(').unwrap();
        let (ps, ret) = r.split_once(") -> ").unwrap();
        let mut ts = vec![ret.to_string()];
        ts.extend(ps.split(", ").filter(|p| !p.is_empty()).map(|p| p.split_once(": ").unwrap().1.to_string()));
        out.push_str(&format!("wasm.import_func {{module = @env, name = @{name}, sym_name = @{name}, type = core.func({})}}", ts.join(", ")));
        rest = &rest[i + tail.len()..];
    }
    out + rest
}

/// shared inlining and cleanup before the target lowering
pub fn target_pipeline(ctx: &mut IrContext, m: Module, inline: bool) -> Result<(), String> {
    if inline {
        trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, an| {
            trunk_ir::transforms::inline::inline_functions(ctx, m, an);
        });
    }
    use tribute_passes::target_abi as abi;
    if abi::has_root_entry_contract(ctx, m) {
        abi::lower_cps_signatures_to_physical(ctx, m).map_err(|e| e.to_string())?;
        abi::compose_root_entry_bridge(ctx, m).map_err(|e| e.to_string())?;
    }
    if inline {
        trunk_ir::transforms::global_dce::eliminate_dead_functions(ctx, m);
        let core_module = core_dialect::Module::from_op(ctx, m.op()).map_err(|_| "not a module")?;
        let mut pm = PassManager::new();
        pm.nest::<func_dialect::Func>()
            .add_pass(trunk_ir::transforms::canonicalize_pass())
            .add_pass(trunk_ir::transforms::dce_pass(Default::default()));
        pm.run(ctx, core_module).map_err(|e| e.to_string())?;
    }
    let tc = tribute_passes::type_converter::generic_type_converter(ctx);
    resolve_unrealized_casts(ctx, m, &tc);
    Ok(())
}

pub fn lower(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    lower_to_wasm(ctx, m).map_err(|e| e.to_string())?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    finalize_wasm_gc_types(ctx, m).map_err(|e| e.to_string())
}

pub fn compile(text: &str, opt: bool) -> Result<Vec<u8>, String> {
    let (mut ctx, m) = parse(text)?;
    let r = quiet(|| {
        crate::native::builtins(&mut ctx, m)?;
        target_pipeline(&mut ctx, m, opt)?;
        lower(&mut ctx, m)?;
        trunk_ir_wasm_backend::emit_module_to_wasm(&mut ctx, m).map(|b| b.bytes.to_vec()).map_err(|e| e.to_string())
    });
    match r {
        Ok(x) => x,
        Err(e) => Err(format!("panic: {e}")),
    }
}

/// Run (case, argument tuple)s under node; returns lines {case, arg, st, ev}.
pub fn run_node(dir: &Path, driver: &str, mods: &[(String, Vec<u8>, Vec<Vec<i128>>)]) -> Result<Vec<Value>, String> {
    let mut jobs = vec![];
    for (i, (id, b, args)) in mods.iter().enumerate() {
        let f = dir.join(format!("c{i}.wasm"));
        std::fs::write(&f, b).map_err(|e| e.to_string())?;
        for (j, a) in args.iter().enumerate() {
            let a: Vec<String> = a.iter().map(|x| (*x as i64).to_string()).collect();
            jobs.push(json!({"case": id, "arg": j, "file": f, "args": a}));
        }
    }
    let mut out: Vec<Value> = vec![];
    while out.len() < jobs.len() {
        let list = dir.join("jobs.json");
        std::fs::write(&list, Value::Array(jobs[out.len()..].to_vec()).to_string()).map_err(|e| e.to_string())?;
        let mut ch = Command::new("node").arg("--stack-size=4000").arg(driver).arg(&list).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let so = ch.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        let th = std::thread::spawn(move || {
            for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let start = out.len();
        // a program that neither ends nor says anything for ten seconds hangs
        while let Ok(l) = rx.recv_timeout(std::time::Duration::from_secs(10)) {
            out.push(serde_json::from_str(&l).map_err(|e| format!("{e}: {l}"))?);
        }
        let _ = ch.kill();
        let _ = ch.wait();
        let _ = th.join();
        if out.len() < jobs.len() {
            let j = &jobs[out.len()];
            let hung = out.iter().filter(|x| x["st"] == "timeout").count();
            if out.len() == start && hung == out.len() && hung > 3 {
                return Err("node does not run".into());
            }
            out.push(json!({"case": j["case"], "arg": j["arg"], "st": "timeout", "ev": []}));
            if hung > 8 {
                // enough said: do not wait for the rest
                let rest: Vec<Value> = jobs[out.len()..].iter().map(|j| json!({"case": j["case"], "arg": j["arg"], "st": "timeout", "ev": []})).collect();
                out.extend(rest);
            }
        }
    }
    Ok(out)
}

pub fn run(a: &Args) {
    let dir = a.s("dir", "/tmp/vp-wasm");
    let dir = Path::new(&dir);
    std::fs::create_dir_all(dir).unwrap();
    let driver = a.s("driver", "/verif/native/driver.js");
    let srcs = sources(a);
    let mut mods = vec![];
    let mut failed: HashMap<String, String> = Default::default();
    for s in &srcs {
        let text = import_externs(&with_main(&s.text, &s.sig));
        crate::case(&text);
        for o in [false, true] {
            let key = format!("{}/{}", s.id, o as u8);
            match compile(&text, o) {
                Ok(b) => mods.push((key, b, s.args.clone())),
                Err(e) => {
                    failed.insert(key, e);
                }
            }
        }
    }
    crate::idle();
    let obs = run_node(dir, &driver, &mods).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(2)
    });
    let mut by: HashMap<String, Vec<Value>> = Default::default();
    for o in obs {
        by.entry(o["case"].as_str().unwrap().to_string()).or_default().push(o);
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    for s in &srcs {
        let mut obs_of: Vec<Vec<Value>> = vec![vec![]; s.args.len()];
        for o in [false, true] {
            let key = format!("{}/{}", s.id, o as u8);
            let how = format!("{}wasm code", if o { "optimized " } else { "" });
            if let Some(e) = failed.get(&key) {
                for v in obs_of.iter_mut() {
                    v.push(json!({"how": how, "o": {"st": format!("not compiled: {e}"), "out": [], "rv": []}, "ev": []}));
                }
            }
            for (j, x) in by.get(&key).into_iter().flatten().enumerate() {
                obs_of[j].push(json!({"how": how, "o": outcome(x)}));
            }
        }
        let v = obs_of.into_iter().map(Value::Array).collect();
        writeln!(f, "{}", case_json(s, "source", v)).unwrap();
    }
    eprintln!("compiled={} failed={}", mods.len(), failed.len());
    let mut why: HashMap<&String, usize> = Default::default();
    for e in failed.values() {
        *why.entry(e).or_default() += 1;
    }
    for (e, n) in why {
        eprintln!("  {n} {e}");
    }
}

/// Debugging aid: the wasm-level IR of a program given as text.
pub fn show(a: &Args) {
    let text = std::fs::read_to_string(a.s("in", "")).unwrap();
    let text = import_externs(&text);
    let (mut ctx, m) = parse(&text).unwrap();
    crate::native::builtins(&mut ctx, m).unwrap();
    let r = target_pipeline(&mut ctx, m, a.u("opt", 0) == 1).and_then(|_| lower(&mut ctx, m));
    println!("{}\n{r:?}", trunk_ir::printer::print_module(&ctx, m.op()));
    match compile(&text, a.u("opt", 0) == 1) {
        Ok(b) => std::fs::write(a.s("bin", "/tmp/x.wasm"), b).unwrap(),
        Err(e) => println!("{e}"),
    }
}
