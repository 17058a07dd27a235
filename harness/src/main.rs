mod conv;
mod ctl;
mod dump;
mod eff;
mod effgen;
mod equiv;
mod graph;
mod io;
mod leg;
mod modgraph;
mod native;
mod observe;
mod passman;
mod progen;
mod rng;
mod rt;
mod templ;
mod text;
mod valid;
mod wasm;

use std::collections::HashMap;

pub struct Args {
    pub cmd: String,
    pub kv: HashMap<String, String>,
}
impl Args {
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
}

static NOW: std::sync::Mutex<Option<(std::time::Instant, String)>> = std::sync::Mutex::new(None);

/// Marks the start of a case: a crash or hang of the code under test is then attributed to it.
pub fn case(what: &str) {
    *NOW.lock().unwrap() = Some((std::time::Instant::now(), what.to_string()));
    if let Ok(p) = std::env::var("VP_PROGRESS") {
        let _ = std::fs::write(p, what);
    }
}

/// No code under test is running in this process.
pub fn idle() {
    *NOW.lock().unwrap() = None;
}

fn watchdog() {
    let limit = std::env::var("VP_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if NOW.lock().unwrap().as_ref().is_some_and(|n| n.0.elapsed().as_secs() > limit) {
                std::process::exit(70);
            }
        }
    });
}

fn main() {
    watchdog();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut kv = HashMap::new();
    while let Some(k) = it.next() {
        kv.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let a = Args { cmd, kv };
    match a.cmd.as_str() {
        "gen" => {
            let mut g = progen::G::new(a.u("seed", 1), progen::Opts::default());
            println!("{}", g.module().0);
        }
        "equiv" => equiv::run(&a),
        "native" => observe::run(&a),
        "wasm" => wasm::run(&a),
        "show-wasm" => wasm::show(&a),
        "eff" => eff::run(&a),
        "effrej" => eff::reject(&a),
        "show-eff" => eff::show(&a),
        "ctl" => ctl::run(&a),
        "graph" => graph::run(&a),
        "io" => io::run(&a),
        "rt" => rt::run(&a),
        "show-io" => io::show(&a),
        "legacy" => leg::run(&a),
        "show-legacy" => leg::show(&a),
        "text" => text::run(&a),
        "modgraph" => modgraph::run(&a),
        "conv" => conv::run(&a),
        "passman" => passman::run(&a),
        "cache" => passman::run_cache(&a),
        "valid" => valid::run(&a),
        "dom" => valid::run_dom(&a),
        "show-native" => observe::show(&a),
        c => {
            eprintln!("unknown command {c}");
            std::process::exit(2);
        }
    }
}
