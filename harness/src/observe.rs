//! Compile generated programs natively, run them, and attach what was
//! observed to the cases for IrEquiv.
use crate::Args;
use crate::dump::{bytes_of, dump_program};
use crate::equiv::{Src, arg_value, parse, quiet, sources};
use crate::native::{self, RcPolicy};
use crate::progen::{Sig, Ty};
use serde_json::{Value, json};
use std::fmt::Write as _;
use std::io::Write;
use std::path::Path;
use std::process::Command;

fn short(t: Ty) -> &'static str {
    match t {
        Ty::I1 => "i1",
        Ty::I32 => "i32",
        _ => "i64",
    }
}

/// `main` reads the arguments, calls the entry function and reports its result.
pub fn with_main(text: &str, sig: &Sig) -> String {
    let mut s = text.trim_end().trim_end_matches('}').to_string();
    for t in ["i1", "i32", "i64"] {
        let _ = writeln!(s, "  func.func @vp_arg_{t}(%a: core.i32) -> core.{t} attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}");
        let _ = writeln!(s, "  func.func @vp_ret_{t}(%a: core.{t}) -> core.{t} attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}");
    }
    s.push_str("  func.func @main() -> core.nil {\n");
    let mut a = vec![];
    for (i, t) in sig.params.iter().enumerate() {
        let ty = short(*t);
        let _ = writeln!(s, "    %i{i} = arith.const {{value = {i}}} : core.i32\n    %a{i} = func.call %i{i} {{callee = @vp_arg_{ty}}} : core.{ty}");
        a.push(format!("%a{i}"));
    }
    let ty = short(sig.ret);
    let sep = if a.is_empty() { "" } else { " " };
    let _ = writeln!(
        s,
        "    %r = func.call {}{sep}{{callee = @entry}} : core.{ty}\n    %q = func.call %r {{callee = @vp_ret_{ty}}} : core.{ty}\n    func.return\n  }}\n}}",
        a.join(", ")
    );
    s
}

pub fn compile(text: &str, opt: bool, pol: RcPolicy) -> Result<Vec<u8>, String> {
    let (mut ctx, m) = parse(text)?;
    let r = quiet(|| {
        native::builtins(&mut ctx, m)?;
        if opt {
            native::optimize(&mut ctx, m);
        }
        let ro = native::prepare(&mut ctx, m, pol)?;
        native::finish(&mut ctx, m, &ro)
    });
    match r {
        Ok(x) => x,
        Err(e) => Err(format!("panic: {e}")),
    }
}

pub fn sh(c: &mut Command) -> Result<Vec<u8>, String> {
    let o = c.output().map_err(|e| format!("{c:?}: {e}"))?;
    if !o.status.success() {
        return Err(format!("{c:?}: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(o.stdout)
}

/// Link all objects with the driver and run every (case, argument tuple).
/// Returns lines {case, arg, st, ev}.
pub fn run_all(dir: &Path, driver: &str, objs: &[(String, Vec<u8>, Vec<Vec<i128>>)], events: bool, rt: &str) -> Result<Vec<Value>, String> {
    if objs.is_empty() {
        return Ok(vec![]);
    }
    let mut h = String::from("typedef struct { const char *id; int (*f)(void); int nargs; const int64_t *args[8]; } Case;\n");
    let mut table = String::from("static Case cases[] = {\n");
    let mut files = vec![];
    for (i, (id, obj, args)) in objs.iter().enumerate() {
        let f = dir.join(format!("c{i}.o"));
        std::fs::write(&f, obj).map_err(|e| e.to_string())?;
        sh(Command::new("objcopy").arg(format!("--redefine-sym=main=trb_case_{i}")).arg(format!("--keep-global-symbol=trb_case_{i}")).arg(&f))?;
        let _ = writeln!(h, "extern int trb_case_{i}(void);");
        let mut refs = vec![];
        for (j, a) in args.iter().enumerate() {
            let v: Vec<String> = a.iter().map(|x| format!("(int64_t)0x{:x}ULL", *x as i64 as u64)).collect();
            let _ = writeln!(h, "static const int64_t a_{i}_{j}[] = {{{}0}};", v.iter().map(|x| format!("{x},")).collect::<String>());
            refs.push(format!("a_{i}_{j}"));
        }
        let _ = writeln!(table, "{{\"{id}\", trb_case_{i}, {}, {{{}}}}},", args.len(), refs.join(","));
        files.push(f);
    }
    let _ = writeln!(table, "}};\n#define NCASES {}", objs.len());
    std::fs::write(dir.join("cases.h"), h + &table).map_err(|e| e.to_string())?;
    // with the runtime library, memory management is not what is watched
    let nofree = if rt.is_empty() { "-DVP_OWN_RUNTIME" } else { "-DVP_NOFREE" };
    let exe = dir.join("run");
    let rsp = dir.join("objs.rsp");
    std::fs::write(&rsp, files.iter().map(|f| format!("{}\n", f.display())).collect::<String>()).map_err(|e| e.to_string())?;
    let mut c = Command::new("gcc");
    c.arg("-O1").arg("-w").arg("-no-pie").arg("-Wl,--unresolved-symbols=ignore-all").arg("-I").arg(dir).arg(driver).arg(format!("@{}", rsp.display())).args(Some(rt).filter(|x| !x.is_empty())).arg("-Wl,--allow-multiple-definition").arg(nofree).arg("-o").arg(&exe).arg("-lm").arg("-lpthread");
    sh(&mut c)?;
    let mut r = Command::new(&exe);
    if events {
        r.arg("events");
    }
    let out = sh(&mut r)?;
    let mut v = vec![];
    for l in String::from_utf8_lossy(&out).lines() {
        v.push(serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?);
    }
    Ok(v)
}

/// An observation as an IrSem outcome.
pub fn outcome(o: &Value) -> Value {
    let mut out = vec![];
    let mut rv = json!([]);
    for e in o["ev"].as_array().unwrap() {
        let k = e[0].as_i64().unwrap();
        let a = e[1].as_i64().unwrap();
        if k == 0 {
            out.push(json!(["vp_out", [{"k": "i", "b": bytes_of(a as i128, 8)}]]));
        } else if k == 5 {
            // adjacent writes are one
            let b = e[2].as_array().unwrap().clone();
            match out.last_mut() {
                _ if b.is_empty() => {}
                Some(l) if l[0] == "write" => l[1].as_array_mut().unwrap().extend(b),
                _ => out.push(json!(["write", b])),
            }
        } else if k == 3 {
            let n = e[2].as_i64().unwrap() as usize;
            let a = if n == 1 { a & 0xff } else { a };
            rv = json!([{"k": "i", "b": bytes_of(a as i128, n)}]);
        }
    }
    let st = o["st"].as_str().unwrap();
    if st != "done" {
        rv = json!([]);
    }
    json!({"st": st, "out": out, "rv": rv})
}

pub fn case_json(src: &Src, how: &str, obs: Vec<Value>) -> Value {
    let (ctx, m) = parse(&src.text).unwrap();
    let av: Vec<Value> = src
        .args
        .iter()
        .map(|v| Value::Array(v.iter().zip(&src.sig.params).map(|(x, t)| arg_value(*t, *x)).collect()))
        .collect();
    json!({"id": src.id, "entry": "entry", "args": av, "progs": [{"p": dump_program(&ctx, m), "how": how}], "obs": obs, "text": src.text})
}

pub fn run(a: &Args) {
    let dir = a.s("dir", "/tmp/vp-native");
    let dir = Path::new(&dir);
    std::fs::create_dir_all(dir).unwrap();
    let driver = a.s("driver", "/verif/native/driver.c");
    let out = a.s("out", "/dev/stdout");
    // ways of compiling: "o:p" with o = optimize, p = reference-counting policy bits
    let vars: Vec<(bool, u64)> = a
        .s("variants", "0:7;1:7")
        .split(';')
        .map(|x| {
            let (o, p) = x.split_once(':').unwrap();
            (o == "1", p.parse().unwrap())
        })
        .collect();
    let rotate = a.u("rotate", 0); // 1: the last variant's policy rotates over all eight
    let events = a.u("events", 0) == 1;
    let srcs = sources(a);
    let mut objs = vec![];
    let mut failed: Vec<(String, String)> = vec![];
    let mut hows: Vec<Vec<(String, String)>> = vec![];
    for (i, s) in srcs.iter().enumerate() {
        let text = with_main(&s.text, &s.sig);
        crate::case(&text);
        let mut h = vec![];
        for (j, (o, p)) in vars.iter().enumerate() {
            let p = if rotate == 1 && j + 1 == vars.len() { i as u64 % 8 } else { *p };
            let key = format!("{}/{j}", s.id);
            h.push((key.clone(), format!("{}native code, rc policy {p}", if *o { "optimized " } else { "" })));
            match compile(&text, *o, RcPolicy::bits(p)) {
                Ok(b) => objs.push((key, b, s.args.clone())),
                Err(e) => failed.push((key, e)),
            }
        }
        hows.push(h);
    }
    crate::idle();
    let obs = match run_all(dir, &driver, &objs, events, &a.s("rt", "")) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    let mut by: std::collections::HashMap<String, Vec<Value>> = Default::default();
    for o in obs {
        by.entry(o["case"].as_str().unwrap().to_string()).or_default().push(o);
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    for (s, h) in srcs.iter().zip(&hows) {
        // per argument tuple, what every way of compiling the program was seen to do
        let mut obs_of: Vec<Vec<Value>> = vec![vec![]; s.args.len()];
        for (key, how) in h {
            if let Some((_, e)) = failed.iter().find(|x| x.0 == *key) {
                // a program the compiler rejects or crashes on has no behaviour
                for v in obs_of.iter_mut() {
                    v.push(json!({"how": how, "o": {"st": format!("not compiled: {e}"), "out": [], "rv": []}, "ev": []}));
                }
            }
            for (j, x) in by.get(key).into_iter().flatten().enumerate() {
                let mut v = json!({"how": how, "o": outcome(x)});
                if events {
                    let ev: Vec<&Value> = x["ev"].as_array().unwrap().iter().filter(|e| [1, 2, 4].contains(&e[0].as_i64().unwrap())).collect();
                    v["ev"] = json!(ev);
                }
                obs_of[j].push(v);
            }
        }
        let v = obs_of.into_iter().map(Value::Array).collect();
        let mut case = case_json(s, "source", v);
        case["managed"] = json!(a.u("managed", 0));
        writeln!(f, "{case}").unwrap();
    }
    eprintln!("compiled={} failed={}", objs.len(), failed.len());
}

/// Debugging aid: the clif-level IR of a program given as text.
pub fn show(a: &Args) {
    let text = std::fs::read_to_string(a.s("in", "")).unwrap();
    let (mut ctx, m) = parse(&text).unwrap();
    native::builtins(&mut ctx, m).unwrap();
    if a.u("opt", 0) == 1 {
        native::optimize(&mut ctx, m);
    }
    match native::prepare(&mut ctx, m, RcPolicy::bits(a.u("rc", 0))) {
        Ok(_) => println!("{}", trunk_ir::printer::print_module(&ctx, m.op())),
        Err(e) => println!("error {e}"),
    }
}
