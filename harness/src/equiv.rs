//! Cases for IrEquiv: a generated program and what each transformation made of it.
use crate::Args;
use crate::dump::{bytes_of, dump_program};
use crate::progen::{G, Opts, Sig, Ty};
use serde_json::{Value, json};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use trunk_ir::context::IrContext;
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::rewrite::Module;

pub fn parse(text: &str) -> Result<(IrContext, Module), String> {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).map_err(|e| e.to_string())?;
    let m = Module::new(&ctx, op).ok_or("not a module")?;
    Ok((ctx, m))
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f));
    let _ = std::panic::take_hook();
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn arg_value(t: Ty, v: i128) -> Value {
    let n = match t {
        Ty::I1 => 1,
        Ty::I32 => 4,
        _ => 8,
    };
    json!({"k": "i", "b": bytes_of(v, n)})
}

pub fn run_pass(ctx: &mut IrContext, m: Module, pass: &str) -> Result<(), String> {
    use trunk_ir::transforms::*;
    match pass {
        "canonicalize" => {
            let _ = canonicalize::canonicalize(ctx, m);
        }
        "dce" => {
            dce::eliminate_dead_code(ctx, m, dce::DceConfig::default());
        }
        "globaldce" => {
            let cfg = global_dce::GlobalDceConfig {
                extra_entry_points: vec!["entry".to_string()],
                ..Default::default()
            };
            global_dce::eliminate_dead_functions_with_config(ctx, m, cfg);
        }
        "inline" => {
            inline::inline_functions(ctx, m, &mut trunk_ir::analysis::AnalysisCache::new());
        }
        "inlineall" | "inlineone" | "inlinesmall" => {
            let cfg = inline::InlineConfig {
                size_threshold: match pass {
                    "inlineall" => 60,
                    "inlineone" => 0,
                    _ => 5,
                },
                always_inline_single_call_site: pass != "inlinesmall",
                inline_across_func_constant: pass == "inlineall",
            };
            // one cache for two runs: the second finds nothing left to do
            let mut am = trunk_ir::analysis::AnalysisCache::new();
            inline::inline_functions_with_config(ctx, m, cfg.clone(), &mut am);
            let again = inline::inline_functions_with_config(ctx, m, cfg, &mut am);
            if again.inlined_count != 0 {
                return Err(format!("inlining again with the same cache inlined {} calls", again.inlined_count));
            }
        }
        "inlinesites" => {
            // the primitive, on every call site there is before the pass, last first
            let g = trunk_ir::transforms::call_graph::build_call_graph(ctx, m);
            let mut sites = vec![];
            let _ = trunk_ir::walk::walk_op::<()>(ctx, m.op(), &mut |op| {
                if let Some(c) = ctx.op(op).attributes.get_symbol("callee")
                    && let Some(f) = g.func_ops.get(&c)
                {
                    sites.push((op, *f));
                }
                std::ops::ControlFlow::Continue(trunk_ir::walk::WalkAction::Advance)
            });
            for (op, f) in sites.into_iter().rev() {
                let _ = inline::inline_single_call(ctx, op, f);
            }
        }
        "scf2cf" => {
            scf_to_cf::lower_scf_to_cf(ctx, m);
        }
        _ => return Err(format!("unknown pass {pass}")),
    }
    Ok(())
}

pub fn args_for(g: &mut G, sig: &Sig, n: usize) -> Vec<Vec<i128>> {
    (0..n).map(|_| sig.params.iter().map(|t| g.arg(*t)).collect()).collect()
}

/// One generated program with argument tuples.
pub struct Src {
    pub id: String,
    pub text: String,
    pub sig: Sig,
    pub args: Vec<Vec<i128>>,
}

pub fn sources(a: &Args) -> Vec<Src> {
    let n = a.u("n", 100);
    let seed = a.u("seed", 1);
    let na = a.u("args", 3) as usize;
    let profile = a.s("profile", "default");
    if profile == "templates" {
        return crate::templ::modules(a.u("chunk", 24) as usize, a.u("notail", 0) == 1, a.u("wasm", 0) == 1)
            .into_iter()
            .enumerate()
            .map(|(i, (text, sig))| Src {
                id: format!("t{i}"),
                text,
                sig,
                args: vec![vec![0, 0], vec![-7, 1 << 33], vec![i32::MIN as i128, i64::MIN as i128]],
            })
            .collect();
    }
    if profile == "files" {
        // hand-written programs: an entry function from core.i32 to core.i32
        let mut v: Vec<_> = std::fs::read_dir(a.s("files", "")).unwrap().map(|e| e.unwrap().path()).collect();
        v.sort();
        let sig = Sig { name: "entry".into(), params: vec![Ty::I32], ret: Ty::I32, recursive: false };
        return v
            .iter()
            .map(|p| Src {
                id: p.file_stem().unwrap().to_string_lossy().into_owned(),
                text: std::fs::read_to_string(p).unwrap(),
                sig: sig.clone(),
                args: vec![vec![0], vec![1], vec![7]],
            })
            .collect();
    }
    (0..n)
        .map(|i| {
            let mut o = Opts { size: 6 + (i % 12) as usize, ..Default::default() };
            if a.u("notail", 0) == 1 {
                o.tail = false;
            }
            match profile.as_str() {
                "calls" => {
                    o.size = 3 + (i % 5) as usize;
                    o.funcs = 5;
                    o.call_heavy = true;
                }
                "inline" => {
                    o.inl = true;
                    o.size = 1 + (i % 4) as usize;
                    o.funcs = 4 + (i % 7) as usize;
                    o.call_heavy = i % 3 != 0;
                    o.flt = false;
                }
                "heap" | "boxes" | "objects" => {
                    o.ctors = profile == "objects";
                    o.boxes = profile == "boxes";
                    o.heap = true;
                    o.adt = false;
                    o.flt = false;
                    o.trap_div = false;
                    o.cps = i % 3 == 2 && profile != "heap";
                    o.funcs = if o.cps { 6 } else { 4 };
                    o.size = 5 + (i % 9) as usize;
                }
                "wasm" => {
                    o.wasm = true;
                    o.cf = false;
                    o.switch = false;
                    o.control_heavy = i % 3 == 0;
                    o.call_heavy = i % 3 == 1;
                }
                "rich" => {
                    o.rich = true;
                    o.size = 6 + (i % 10) as usize;
                    if a.u("wasm", 0) == 1 {
                        o.wasm = true;
                        o.cf = false;
                        o.switch = false;
                    }
                    o.control_heavy = i % 4 == 0;
                    o.call_heavy = i % 4 == 1;
                }
                "control" => {
                    o.size = 8 + (i % 8) as usize;
                    o.control_heavy = true;
                    o.flt = i % 4 == 0;
                }
                _ => {}
            }
            let mut g = G::new(seed.wrapping_mul(1_000_003).wrapping_add(i), o);
            let (text, sig) = g.module();
            let args = args_for(&mut g, &sig, na);
            Src { id: format!("r{i}"), text, sig, args }
        })
        .collect()
}

pub fn run(a: &Args) {
    let pipelines: Vec<Vec<String>> = a
        .s("pipes", "canonicalize")
        .split(';')
        .map(|p| p.split('+').map(|s| s.to_string()).collect())
        .collect();
    let out = a.s("out", "/dev/stdout");
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    let (mut same, mut changed) = (0, 0);
    for src in sources(a) {
        crate::case(&src.text);
        let (ctx, m) = match parse(&src.text) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("generator: {e}\n{}", src.text);
                std::process::exit(2);
            }
        };
        let src_print = print_module(&ctx, m.op());
        let mut progs = vec![json!({"p": dump_program(&ctx, m), "how": "source"})];
        let mut seen = vec![src_print];
        for p in &pipelines {
            let (mut ctx, m) = parse(&src.text).unwrap();
            let r = quiet(|| {
                for q in p {
                    run_pass(&mut ctx, m, q)?;
                }
                Ok::<(), String>(())
            });
            match r {
                Ok(Ok(())) => {
                    let pr = print_module(&ctx, m.op());
                    if seen.contains(&pr) {
                        same += 1;
                        continue;
                    }
                    seen.push(pr);
                    changed += 1;
                    progs.push(json!({"p": dump_program(&ctx, m), "how": p.join("+")}));
                }
                Ok(Err(e)) => {
                    eprintln!("{e}");
                    std::process::exit(2)
                }
                Err(e) => {
                    // a crash of the compiler is data: a program without its entry is stuck
                    progs.push(json!({"p": {"funcs": {"none": {"rt": "", "pt": [], "ext": true, "blocks": []}}},
                                      "how": format!("{} panicked: {e}", p.join("+"))}));
                }
            }
        }
        if progs.len() == 1 {
            continue;
        }
        let av: Vec<Value> = src
            .args
            .iter()
            .map(|v| Value::Array(v.iter().zip(&src.sig.params).map(|(x, t)| arg_value(*t, *x)).collect()))
            .collect();
        let case = json!({"id": src.id, "entry": "entry", "args": av, "progs": progs, "obs": [], "text": src.text});
        writeln!(f, "{case}").unwrap();
    }
    crate::idle();
    eprintln!("changed={changed} same={same}");
}
