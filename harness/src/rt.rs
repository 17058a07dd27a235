//! Histories of calls into the real runtime library (native/rt.c), recorded
//! for RuntimeTrace.
use crate::Args;
use crate::observe::sh;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::fmt::Write as _;
use std::io::Write;
use std::path::Path;
use std::process::Command;

const ZONE: u64 = 32;
const LIMIT: u64 = 1 << 20;

struct Hist {
    kind: &'static str,
    san: bool,
    ops: String,
}

fn evidence(g: &mut Rng, len: usize) -> String {
    let pool: [i64; 12] = [i32::MIN as i64, -70000, -2, -1, 0, 1, 2, 3, 77, 4096, 1 << 30, i32::MAX as i64];
    let mut s = String::from("1 0");
    let mut ids: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..len {
        let src = if g.chance(2, 3) { ids.len() - 1 } else { g.below(ids.len()) };
        if ids[src].is_empty() || g.chance(1, 2) {
            if g.chance(1, 20) {
                let _ = write!(s, " 1 {}", ids.len());
                ids.push(vec![]);
                continue;
            }
            let id = *g.pick(&pool);
            let _ = write!(s, " 2 {} {src} {id} {} {} {}", ids.len(), g.below(5) as i64 - 1, g.below(3) * 16, g.below(3) * 8);
            let mut n = ids[src].clone();
            if !n.contains(&id) {
                n.push(id);
            }
            ids.push(n);
        } else {
            let id = *g.pick(&ids[src]);
            let _ = write!(s, " 3 {src} {id}");
        }
    }
    s
}

fn bytes(g: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    let mut lens: Vec<usize> = vec![];
    for k in 0..len {
        let op = if k < 3 { 0 } else { g.below(9) };
        if op == 0 {
            let n = *g.pick(&[0, 1, 2, 3, 5, 9]);
            let _ = write!(s, " 4 {} {n}", lens.len());
            for _ in 0..n {
                let _ = write!(s, " {}", *g.pick(&[0u8, 97, 97, 98, 255]));
            }
            lens.push(n);
            continue;
        }
        let h = g.below(lens.len());
        let o = g.below(lens.len());
        match op {
            1 if lens[h] + lens[o] < 300 => {
                let _ = write!(s, " 5 {} {h} {o}", lens.len());
                lens.push(lens[h] + lens[o]);
            }
            2 | 3 => {
                let (mut a, mut b) = (g.below(lens[h] + 1), g.below(lens[h] + 1));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                if g.chance(1, 40) {
                    // outside the string: ends the program
                    let (x, y) = *g.pick(&[(b + 1, b), (a, lens[h] + 1), (lens[h] + 1, lens[h] + 1), (a, u32::MAX as usize), (u32::MAX as usize, 0)]);
                    let _ = write!(s, " 6 {} {h} {x} {y}", lens.len());
                    return s;
                }
                let _ = write!(s, " 6 {} {h} {a} {b}", lens.len());
                lens.push(b - a);
            }
            4 => {
                let _ = write!(s, " 7 {h}");
            }
            5 | 6 => {
                let (i, j) = (g.below(lens[h] + 2), g.below(lens[o] + 2));
                let n = if g.chance(1, 15) { u32::MAX as usize - g.below(4) } else { g.below(4) };
                let (i, n) = if g.chance(1, 20) { (u32::MAX as usize, n) } else { (i, n) };
                let _ = write!(s, " 8 {h} {i} {o} {j} {n}");
            }
            7 => {
                let _ = write!(s, " 9 {h}");
            }
            _ => {
                let _ = write!(s, " 10 {h}");
            }
        }
    }
    for h in 0..lens.len() {
        let _ = write!(s, " 9 {h}");
    }
    s
}

fn memory(g: &mut Rng, len: usize, san: bool) -> String {
    let mut s = String::new();
    let mut sz: Vec<u64> = vec![];
    let mut live: Vec<usize> = vec![];
    let mut hurt: Vec<usize> = vec![];
    let mut gone: Vec<usize> = vec![];
    let big = g.chance(1, 6);
    for _ in 0..len {
        let op = g.below(8);
        if live.is_empty() || op < 2 {
            let n = if big && g.chance(1, 2) { *g.pick(&[300_000u64, 1 << 20, 131_072]) } else { *g.pick(&[0u64, 1, 7, 8, 9, 16, 24, 40, 64, 100, 200]) };
            let _ = write!(s, " 11 {} {n}", sz.len());
            if n > 0 {
                live.push(sz.len());
            }
            sz.push(n);
            continue;
        }
        let h = *g.pick(&live);
        match op {
            2 | 3 => {
                let _ = write!(s, " 12 {h} {}", g.below(250));
            }
            4 => {
                let _ = write!(s, " 13 {h}");
            }
            5 if san && g.chance(1, 6) && !hurt.contains(&h) => {
                let off = if g.chance(1, 2) { -(1 + g.below(32) as i64) } else { g.below(32) as i64 };
                let _ = write!(s, " 14 {h} {off}");
                hurt.push(h);
            }
            5 if !gone.is_empty() => {
                let q = *g.pick(&gone);
                if g.chance(1, 10) {
                    // given back twice
                    let _ = write!(s, " 15 {q}");
                    return s;
                }
                let _ = write!(s, " 13 {q}");
            }
            _ => {
                let _ = write!(s, " 15 {h}");
                if hurt.contains(&h) {
                    return s;
                }
                live.retain(|x| *x != h);
                if san {
                    gone.push(h);
                    while gone.iter().map(|x| sz[*x] + 2 * ZONE).sum::<u64>() > LIMIT {
                        gone.remove(0);
                    }
                }
            }
        }
    }
    s
}

fn hists(a: &Args) -> Vec<Hist> {
    let mut g = Rng::new(a.u("seed", 1) * 104_729);
    let mut v = vec![];
    for i in 0..a.u("n", 400) {
        let len = 10 + g.below(50);
        v.push(match i % 5 {
            0 => Hist { kind: "evidence", san: g.chance(1, 3), ops: evidence(&mut g, len) },
            1 => Hist { kind: "bytes", san: g.chance(1, 3), ops: bytes(&mut g, len) },
            2 => Hist { kind: "memory", san: false, ops: memory(&mut g, len, false) },
            _ => Hist { kind: "sanitized memory", san: true, ops: memory(&mut g, len, true) },
        });
    }
    for i in 0..a.u("threads", 40) {
        let mut ops = String::new();
        if i % 4 == 3 {
            for _ in 0..g.below(4) {
                ops.push_str(" 17 0");
            }
        }
        let _ = write!(ops, " 16 {} {} {}", 2 + g.below(6), 3 + g.below(20), *g.pick(&[0, 0, 300, 1500, 3000]));
        for _ in 0..g.below(4) {
            ops.push_str(" 17 0");
        }
        v.push(Hist { kind: "threads", san: false, ops });
    }
    for n in [70_000, 300_000] {
        v.push(Hist { kind: "threads", san: false, ops: format!(" 18 {n}") });
    }
    v
}

/// Addresses become their ranks: order and equality is all that matters.
fn ranks(ev: &mut [Value]) {
    let mut all: Vec<i64> = vec![];
    for e in ev.iter() {
        if e[0] == "alloc" {
            all.extend([e[3].as_i64().unwrap(), e[4].as_i64().unwrap()]);
        }
    }
    all.sort();
    all.dedup();
    for e in ev.iter_mut() {
        if e[0] == "alloc" {
            let (lo, hi) = (e[3].as_i64().unwrap(), e[4].as_i64().unwrap());
            let null = lo == 0;
            let r = |x: i64| all.binary_search(&x).unwrap() as i64;
            let aligned = if null { (e[2] == 0) as i64 } else { e[5].as_i64().unwrap() };
            *e = json!(["alloc", e[1], e[2], if null { -1 } else { r(lo) }, if null { -1 } else { r(hi) }, aligned]);
        }
    }
}

fn all(a: &Args, dir: &Path, f: &mut impl Write) -> Result<(), String> {
    let exe = dir.join("rt");
    let mut c = Command::new("gcc");
    c.args(["-O1", "-w", "-no-pie"]).arg(a.s("driver", "/verif/native/rt.c")).arg(a.s("rt", "")).arg("-o").arg(&exe).args(["-lm", "-lpthread", "-ldl"]);
    sh(&mut c)?;
    let hs = hists(a);
    let list = dir.join("jobs");
    let text: String = hs.iter().enumerate().map(|(i, h)| format!("{i} {} {}\n", h.san as u8, h.ops)).collect();
    std::fs::write(&list, text).map_err(|e| e.to_string())?;
    let out = Command::new(&exe).arg(&list).output().map_err(|e| e.to_string())?;
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        // a process that dies while another of its threads writes leaves half an event at the end
        let whole = || -> Option<Value> {
            let body = l.strip_suffix("]}")?;
            let cut = body.rfind("],[").map(|i| i + 1).or_else(|| body.find("\"ev\":[").map(|i| i + 6))?;
            serde_json::from_str(&format!("{}]}}", &body[..cut])).ok()
        };
        let o: Value = serde_json::from_str(l).or_else(|e| whole().ok_or(format!("{e}: {}", &l[..l.len().min(300)])))?;
        let i = o["job"].as_u64().unwrap() as usize;
        let mut ev = o["ev"].as_array().unwrap().clone();
        ranks(&mut ev);
        // beyond any string: the model's numbers end at 2^31
        for x in ev.iter_mut().filter(|e| e[0] == "eq" || e[0] == "cut").flat_map(|e| e.as_array_mut().unwrap().iter_mut()) {
            if x.as_i64().is_some_and(|n| n > 1_000_000_000) {
                *x = json!(1_000_000_000);
            }
        }
        ev.push(json!(["end", o["st"]]));
        writeln!(f, "{}", json!({"id": i, "how": hs[i].kind, "san": hs[i].san as u8, "events": ev})).unwrap();
    }
    Ok(())
}

pub fn run(a: &Args) {
    let dir = a.s("dir", "/tmp/vp-rt");
    let dir = Path::new(&dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    if let Err(e) = all(a, dir, &mut f) {
        eprintln!("{e}");
        std::process::exit(2);
    }
}
