//! A compiled program that obeys commands (read a line, write bytes), run under
//! scripted answers of the operating system; the system calls and reports are
//! recorded for IoTrace.
use crate::Args;
use crate::native::RcPolicy;
use crate::observe::{compile, sh};
use crate::rng::Rng;
use serde_json::{Value, json};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::path::Path;
use std::process::{Command, Stdio};

const RESULT: &str = "adt.enum() {name = @\"std::io::ReadLineResult\", variants = [[@ReadLine, [core.bytes]], [@ReadEndOfFile, []], [@ReadInvalidEncoding, []], [@ReadSystem, [core.i32, core.bytes]]]}";

fn literals() -> Vec<Vec<u8>> {
    vec![vec![], b"a".to_vec(), b"ab".to_vec(), b"\n".to_vec(), "h\u{e9}\u{0}\n".as_bytes().to_vec(), vec![0xff, 0x80, 0x7f], (0..64).collect()]
}

/// commands: 0 end, 1 read, 2 write, 3 write with newline, 4 echo, 5 echo with newline
fn program(read: bool, any: bool) -> String {
    let rt = if any { "tribute_rt.anyref" } else { "!R" };
    let mut s = String::from("core.module @m {\n");
    if read {
        let _ = writeln!(s, "  !R = {RESULT}");
    }
    let ext = |s: &mut String, f: &str, ps: &[&str], r: &str, abi: &str| {
        let ps: Vec<String> = ps.iter().enumerate().map(|(i, t)| format!("%a{i}: {t}")).collect();
        let _ = writeln!(s, "  func.func @{f}({}) -> {r} attributes {{abi = \"{abi}\"}} {{\n    func.unreachable\n  }}", ps.join(", "));
    };
    let (by, n) = ("core.bytes", "core.i32");
    for f in ["vp_op", "vp_lit", "vp_dbl"] {
        ext(&mut s, f, &[n], n, "C");
    }
    if read {
        ext(&mut s, "vp_rep", &[n, n], n, "C");
        ext(&mut s, "vp_byte", &[n], n, "C");
        ext(&mut s, "vp_fin", &[n], n, "C");
        ext(&mut s, "\"std::io::__tribute_io_read_line\"", &[], rt, "intrinsic");
        ext(&mut s, "\"__bytes_get_or_panic\"", &[by, n], n, "intrinsic");
        ext(&mut s, "\"__tribute_bytes_len\"", &[by], n, "C");
    }
    ext(&mut s, "\"std::io::__tribute_io_write\"", &[by, "core.i1"], "core.nil", "intrinsic");
    ext(&mut s, "\"__tribute_bytes_concat\"", &[by, by], by, "C");
    // the literal with a given number
    s.push_str("  func.func @lit(%k: core.i32) -> core.bytes {\n");
    let lits = literals();
    for (i, l) in lits.iter().enumerate() {
        let b: String = l.iter().map(|x| format!("\\x{x:02x}")).collect();
        let c = format!("adt.bytes_const {{value = b\"{b}\"}} : core.bytes");
        if i + 1 < lits.len() {
            let _ = writeln!(s, "    %c{i} = arith.const {{value = {i}}} : core.i32\n    %e{i} = arith.cmpi %k, %c{i} {{predicate = @eq}} : core.i1\n    %r{i} = scf.if %e{i} : core.bytes {{\n    %l{i} = {c}\n    scf.yield %l{i}\n    }} {{");
        } else {
            let _ = writeln!(s, "    %l{i} = {c}\n    scf.yield %l{i}");
        }
    }
    for i in (0..lits.len() - 1).rev() {
        if i > 0 {
            let _ = writeln!(s, "    }}\n    scf.yield %r{i}");
        } else {
            s.push_str("    }\n    func.return %r0\n  }\n");
        }
    }
    s.push_str(
        "  func.func @grow(%b: core.bytes, %n: core.i32) -> core.bytes {
    %z = arith.const {value = 0} : core.i32
    %e = arith.cmpi %n, %z {predicate = @eq} : core.i1
    %r = scf.if %e : core.bytes {
      scf.yield %b
    } {
      %bb = func.call %b, %b {callee = @__tribute_bytes_concat} : core.bytes
      %one = arith.const {value = 1} : core.i32
      %m = arith.subi %n, %one : core.i32
      %q = func.call %bb, %m {callee = @grow} : core.bytes
      scf.yield %q
    }
    func.return %r
  }
",
    );
    if read {
        s.push_str(
            "  func.func @put(%b: core.bytes, %i: core.i32) -> core.i32 {
    %n = func.call %b {callee = @__tribute_bytes_len} : core.i32
    %c = arith.cmpi %i, %n {predicate = @slt} : core.i1
    %r = scf.if %c : core.i32 {
      %x = func.call %b, %i {callee = @__bytes_get_or_panic} : core.i32
      %o = func.call %x {callee = @vp_byte} : core.i32
      %one = arith.const {value = 1} : core.i32
      %j = arith.addi %i, %one : core.i32
      %q = func.call %b, %j {callee = @put} : core.i32
      scf.yield %q
    } {
      %f = func.call %i {callee = @vp_fin} : core.i32
      scf.yield %f
    }
    func.return %r
  }
  func.func @report(%tag: core.i32, %code: core.i32, %b: core.bytes) -> core.bytes {
    %g = func.call %tag, %code {callee = @vp_rep} : core.i32
    %z = arith.const {value = 0} : core.i32
    %p = func.call %b, %z {callee = @put} : core.i32
    func.return %b
  }
",
        );
        let is = |v: &str| format!("adt.variant_is %r {{tag = @{v}, type = !R}} : core.i1");
        let _ = write!(
            s,
            "  func.func @read() -> core.bytes {{
    %r = func.call {{callee = @\"std::io::__tribute_io_read_line\"}} : {rt}
    %z = arith.const {{value = 0}} : core.i32
    %none = adt.bytes_const {{value = b\"\"}} : core.bytes
    %isl = {}
    %v = scf.if %isl : core.bytes {{
      %k = adt.variant_cast %r {{tag = @ReadLine, type = !R}} : {rt}
      %l = adt.variant_get %k {{field = 0, tag = @ReadLine, type = !R}} : core.bytes
      %q = func.call %z, %z, %l {{callee = @report}} : core.bytes
      scf.yield %q
    }} {{
      %iss = {}
      %w = scf.if %iss : core.bytes {{
        %k3 = adt.variant_cast %r {{tag = @ReadSystem, type = !R}} : {rt}
        %code = adt.variant_get %k3 {{field = 0, tag = @ReadSystem, type = !R}} : core.i32
        %msg = adt.variant_get %k3 {{field = 1, tag = @ReadSystem, type = !R}} : core.bytes
        %t3 = arith.const {{value = 3}} : core.i32
        %q3 = func.call %t3, %code, %msg {{callee = @report}} : core.bytes
        scf.yield %none
      }} {{
        %ise = {}
        %u = scf.if %ise : core.bytes {{
          %t1 = arith.const {{value = 1}} : core.i32
          %q1 = func.call %t1, %z, %none {{callee = @report}} : core.bytes
          scf.yield %q1
        }} {{
          %isi = {}
          %y = scf.if %isi : core.bytes {{
            %t2 = arith.const {{value = 2}} : core.i32
            %q2 = func.call %t2, %z, %none {{callee = @report}} : core.bytes
            scf.yield %q2
          }} {{
            %t9 = arith.const {{value = 9}} : core.i32
            %q9 = func.call %t9, %z, %none {{callee = @report}} : core.bytes
            scf.yield %q9
          }}
          scf.yield %y
        }}
        scf.yield %u
      }}
      scf.yield %w
    }}
    func.return %v
  }}
",
            is("ReadLine"),
            is("ReadSystem"),
            is("ReadEndOfFile"),
            is("ReadInvalidEncoding")
        );
    }
    let cmp = |s: &mut String, name: &str, k: i32| {
        let _ = writeln!(s, "    %k{name} = arith.const {{value = {k}}} : core.i32\n    %is{name} = arith.cmpi %op, %k{name} {{predicate = @eq}} : core.i1");
    };
    s.push_str("  func.func @step(%i: core.i32, %last: core.bytes) -> core.i32 {\n    %op = func.call %i {callee = @vp_op} : core.i32\n");
    cmp(&mut s, "end", 0);
    s.push_str("    %res = scf.if %isend : core.i32 {\n      scf.yield %op\n    } {\n    %one = arith.const {value = 1} : core.i32\n    %j = arith.addi %i, %one : core.i32\n");
    if read {
        cmp(&mut s, "read", 1);
        s.push_str("    %ra = scf.if %isread : core.i32 {\n      %nl = func.call {callee = @read} : core.bytes\n      %q1 = func.call %j, %nl {callee = @step} : core.i32\n      scf.yield %q1\n    } {\n");
    }
    s.push_str("    %lk = func.call %i {callee = @vp_lit} : core.i32\n    %ld = func.call %i {callee = @vp_dbl} : core.i32\n");
    cmp(&mut s, "w", 2);
    cmp(&mut s, "wn", 3);
    cmp(&mut s, "en", 5);
    s.push_str(
        "    %newline = arith.or %iswn, %isen : core.i1
    %islit = arith.or %isw, %iswn : core.i1
    %payload = scf.if %islit : core.bytes {
      %l0 = func.call %lk {callee = @lit} : core.bytes
      %l1 = func.call %l0, %ld {callee = @grow} : core.bytes
      scf.yield %l1
    } {
      scf.yield %last
    }
    %wr = func.call %payload, %newline {callee = @\"std::io::__tribute_io_write\"} : core.nil
    %q2 = func.call %j, %last {callee = @step} : core.i32
    scf.yield %q2
    }
",
    );
    if read {
        s.push_str("    scf.yield %ra\n    }\n");
    }
    s.push_str("    func.return %res\n  }\n  func.func @main() -> core.nil {\n    %z = arith.const {value = 0} : core.i32\n    %none = adt.bytes_const {value = b\"\"} : core.bytes\n    %r = func.call %z, %none {callee = @step} : core.i32\n    func.return\n  }\n}\n");
    s
}

#[derive(Clone, PartialEq)]
enum R {
    Data(Vec<u8>),
    Intr,
    End,
    Fail(i32),
}
#[derive(Clone)]
enum Wr {
    Take(usize),
    Intr,
    All,
    Fail(i32),
}
#[derive(Clone)]
struct Job {
    cmds: Vec<(i32, i32, i32)>,
    rd: Vec<R>,
    wr: Vec<Wr>,
}

fn seqs<T: Clone>(items: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|s| items.iter().map(|x| s.iter().cloned().chain([x.clone()]).collect::<Vec<T>>())).collect();
        out.extend(last.iter().cloned());
    }
    out
}

fn jobs(a: &Args, read: bool) -> Vec<Job> {
    let deep = a.u("deep", 3) as usize;
    let mut v = vec![];
    if read {
        // every short history of the input
        let items = [R::Data(b"a".to_vec()), R::Data(b"\n".to_vec()), R::Data(b"\r".to_vec()), R::Data(b"b\r\nc".to_vec()), R::Data(vec![0xc3]), R::Data(vec![0xa9]), R::Intr, R::End, R::Fail(5)];
        for rd in seqs(&items, deep) {
            v.push(Job { cmds: vec![(1, 0, 0), (1, 0, 0), (1, 0, 0)], rd, wr: vec![] });
        }
    }
    // every short history of the output
    let items = [Wr::Take(0), Wr::Take(1), Wr::Take(2), Wr::Intr, Wr::All, Wr::Fail(5)];
    for wr in seqs(&items, deep + 1) {
        v.push(Job { cmds: vec![(3, 2, 0), (2, 0, 0), (2, 3, 0), (3, 0, 0)], rd: vec![], wr });
    }
    let mut g = Rng::new(a.u("seed", 1) * 7919 + read as u64);
    let nl = literals().len();
    for k in 0..a.u("n", 200) {
        let mut cmds = vec![];
        let big = k % 40 == 7;
        for _ in 0..1 + g.below(8) {
            let op = if read { [1, 1, 2, 3, 4, 5][g.below(6) as usize] } else { 2 + g.below(2) as i32 };
            let lit = g.below(nl) as i32;
            let dbl = if big && g.below(3) == 0 { 9 + g.below(3) as i32 } else if g.below(4) == 0 { g.below(4) as i32 } else { 0 };
            cmds.push((op, lit, dbl));
        }
        let mut rd = vec![];
        if read {
            for _ in 0..g.below(9) {
                rd.push(match g.below(9) {
                    0 => R::Intr,
                    1 => R::End,
                    2 => R::Fail([5, 9, 11, 4095][g.below(4) as usize]),
                    _ => {
                        let n = if big { [8191, 8192, 8193, 3, 16384][g.below(5) as usize] } else { 1 + g.below(6) };
                        let pool = [b'a', b'b', b'\r', b'\n', 0, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xed, 0xa0, 0xff, 0xc0, 0x80];
                        let text = g.below(3) > 0;
                        R::Data((0..n).map(|_| if big && g.below(1000) > 0 { b'x' } else if text { pool[g.below(4) as usize] } else { pool[g.below(pool.len()) as usize] }).collect())
                    }
                });
            }
        }
        let mut wr = vec![];
        for _ in 0..g.below(10) {
            wr.push(match g.below(8) {
                0 | 1 => Wr::Intr,
                2 => Wr::All,
                3 if g.below(3) == 0 => Wr::Take(0),
                4 if g.below(2) == 0 => Wr::Fail([5, 11, 32][g.below(3) as usize]),
                _ => Wr::Take(1 + g.below(if big { 9000 } else { 5 }) as usize),
            });
        }
        v.push(Job { cmds, rd, wr });
    }
    v
}

fn prog_json(j: &Job) -> Value {
    let lits = literals();
    let v: Vec<Value> = j
        .cmds
        .iter()
        .map(|&(op, l, d)| match op {
            1 => json!(["read"]),
            2 | 3 => json!(["write", lits[l as usize].repeat(1 << d), op - 2]),
            _ => json!(["echo", [], op - 4]),
        })
        .collect();
    Value::Array(v)
}

fn case(f: &mut impl Write, i: usize, how: &str, j: &Job, o: &Value) {
    let mut ev = o["ev"].as_array().cloned().unwrap_or_default();
    ev.push(json!(["end", o["st"]]));
    writeln!(f, "{}", json!({"id": format!("{how}/{i}"), "how": how, "prog": prog_json(j), "events": ev})).unwrap();
}

fn native_all(a: &Args, dir: &Path, f: &mut impl Write) -> Result<(), String> {
    let mut h = String::new();
    let mut files = vec![];
    let mut hows = vec![];
    for any in [false, true] {
        let text = program(true, any);
        for (o, p) in [(false, 7), (true, 7), (false, 0)] {
            crate::case(&text);
            let how = format!("{}native code, rc policy {p}{}", if o { "optimized " } else { "" }, if any { ", uniform results" } else { "" });
            match compile(&text, o, RcPolicy::bits(p)) {
                Ok(obj) => {
                    let i = hows.len();
                    let file = dir.join(format!("p{i}.o"));
                    std::fs::write(&file, obj).map_err(|e| e.to_string())?;
                    sh(Command::new("objcopy").arg(format!("--redefine-sym=main=trb_io_{i}")).arg(format!("--keep-global-symbol=trb_io_{i}")).arg(&file))?;
                    let _ = writeln!(h, "extern int trb_io_{i}(void);");
                    files.push(file);
                    hows.push(how);
                }
                Err(e) => case(f, 0, &how, &Job { cmds: vec![], rd: vec![], wr: vec![] }, &json!({"st": format!("not compiled: {e}"), "ev": []})),
            }
        }
    }
    crate::idle();
    if hows.is_empty() {
        return Ok(());
    }
    let _ = writeln!(h, "static int (*progs[])(void) = {{{}}};", (0..hows.len()).map(|i| format!("trb_io_{i}")).collect::<Vec<_>>().join(", "));
    std::fs::write(dir.join("io_cases.h"), h).map_err(|e| e.to_string())?;
    let exe = dir.join("io");
    let mut c = Command::new("gcc");
    c.args(["-O1", "-w", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"]).arg("-I").arg(dir).arg(a.s("driver", "/verif/native/io.c")).args(&files).arg(a.s("rt", "")).args(["-Wl,--allow-multiple-definition", "-o"]).arg(&exe).args(["-lm", "-lpthread"]);
    sh(&mut c)?;
    let js = jobs(a, true);
    let mut t = String::new();
    for (i, j) in js.iter().enumerate() {
        // every history under one way of compiling; the way rotates
        let _ = write!(t, "{i} {} {}", i % hows.len(), j.cmds.len());
        for (x, y, z) in &j.cmds {
            let _ = write!(t, " {x} {y} {z}");
        }
        let _ = write!(t, " {}", j.rd.len());
        for r in &j.rd {
            match r {
                R::Data(b) => {
                    let _ = write!(t, " 0 {}", b.len());
                    for x in b {
                        let _ = write!(t, " {x}");
                    }
                }
                R::Intr => t.push_str(" 1 0"),
                R::End => t.push_str(" 2 0"),
                R::Fail(c) => {
                    let _ = write!(t, " 3 {c}");
                }
            }
        }
        let _ = write!(t, " {}", j.wr.len());
        for w in &j.wr {
            let _ = match w {
                Wr::Take(n) => write!(t, " 0 {n}"),
                Wr::Intr => write!(t, " 1 0"),
                Wr::All => write!(t, " 2 0"),
                Wr::Fail(c) => write!(t, " 3 {c}"),
            };
        }
        t.push('\n');
    }
    let list = dir.join("jobs");
    std::fs::write(&list, t).map_err(|e| e.to_string())?;
    let out = Command::new(&exe).arg(&list).output().map_err(|e| e.to_string())?;
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let o: Value = serde_json::from_str(l).map_err(|e| format!("{e}: {}", &l[..l.len().min(300)]))?;
        let i = o["job"].as_u64().unwrap() as usize;
        case(f, i, &hows[i % hows.len()], &js[i], &o);
    }
    Ok(())
}

fn wasm_all(a: &Args, dir: &Path, f: &mut impl Write) -> Result<(), String> {
    let text = crate::wasm::import_externs(&program(false, false));
    let mut mods = vec![];
    for o in [false, true] {
        crate::case(&text);
        let how = format!("{}wasm code", if o { "optimized " } else { "" });
        match crate::wasm::compile(&text, o) {
            Ok(b) => {
                let file = dir.join(format!("p{}.wasm", o as u8));
                std::fs::write(&file, b).map_err(|e| e.to_string())?;
                mods.push((how, file));
            }
            Err(e) => case(f, 0, &how, &Job { cmds: vec![], rd: vec![], wr: vec![] }, &json!({"st": format!("not compiled: {e}"), "ev": []})),
        }
    }
    crate::idle();
    if mods.is_empty() {
        return Ok(());
    }
    let js = jobs(a, false);
    let mut at = 0;
    while at < js.len() {
        let list: Vec<Value> = (at..js.len())
            .map(|i| {
                let wr: Vec<Value> = js[i]
                    .wr
                    .iter()
                    .map(|w| match w {
                        Wr::Take(n) => json!([0, n]),
                        Wr::Intr => json!([1, 0]),
                        Wr::All => json!([2, 0]),
                        Wr::Fail(c) => json!([3, c]),
                    })
                    .collect();
                json!({"job": i, "file": mods[i % mods.len()].1, "cmds": js[i].cmds, "wr": wr})
            })
            .collect();
        let file = dir.join("jobs.json");
        std::fs::write(&file, Value::Array(list).to_string()).map_err(|e| e.to_string())?;
        let mut ch = Command::new("node").arg("--stack-size=4000").arg(a.s("jsdriver", "/verif/native/io.js")).arg(&file).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let so = ch.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        let th = std::thread::spawn(move || {
            for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        while let Ok(l) = rx.recv_timeout(std::time::Duration::from_secs(10)) {
            let o: Value = serde_json::from_str(&l).map_err(|e| format!("{e}: {}", &l[..l.len().min(300)]))?;
            let i = o["job"].as_u64().unwrap() as usize;
            case(f, i, &mods[i % mods.len()].0, &js[i], &o);
            at = i + 1;
        }
        let _ = ch.kill();
        let _ = ch.wait();
        let _ = th.join();
        if at < js.len() {
            // neither ends nor says anything
            case(f, at, &mods[at % mods.len()].0, &js[at], &json!({"st": "timeout", "ev": []}));
            break;
        }
    }
    Ok(())
}

pub fn run(a: &Args) {
    let dir = a.s("dir", "/tmp/vp-io");
    let dir = Path::new(&dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    if let Err(e) = native_all(a, dir, &mut f).and_then(|_| wasm_all(a, dir, &mut f)) {
        eprintln!("{e}");
        std::process::exit(2);
    }
}

pub fn show(a: &Args) {
    println!("{}", program(a.u("read", 1) == 1, a.u("any", 0) == 1));
}
