//! Effectful programs through the route the compiler takes today: one program
//! is written twice, in the direct-style language (its meaning, EffSem) and in
//! the form the front end hands to the middle end (continuations, evidence and
//! ability.legacy_* operations), which is compiled to machine code and wasm.
use crate::rng::Rng;
use crate::Args;
use crate::dump::dump_program;
use crate::eff::{bodies, imports, panics, shared, target};
use crate::equiv::{arg_value, parse, quiet};
use crate::native::{self, RcPolicy};
use crate::progen::Ty;
use serde_json::{Value, json};
use std::io::Write as _;
use std::collections::HashSet;
use std::fmt::Write;

#[derive(Clone)]
struct Op {
    ab: usize,
    name: &'static str,
    general: bool,
    n: usize,
}
const AB: [&str; 4] = ["State", "Amb", "Log", "Mix"];
fn ops() -> Vec<Op> {
    let o = |ab, name, general, n| Op { ab, name, general, n };
    vec![
        o(0, "get", true, 0),
        o(0, "put", true, 1),
        o(1, "choose", true, 2),
        o(1, "fail", true, 0),
        o(2, "write", false, 1),
        o(2, "level", false, 2),
        o(3, "quick", false, 0),
        o(3, "slow", true, 1),
        o(3, "fast", false, 2),
    ]
}

type V = String;
enum R {
    Const(i32),
    Bin(&'static str, V, V),
    Out(V),
    Perform(Op, Vec<V>),
    Call(usize, Vec<V>),
    Handle(Box<H>),
    Resume(V),
    If(V, Box<C>, Box<C>),
    Lambda(Box<L>),
    CallVal(V, u8, Vec<V>),
}
struct L {
    cv: u8,
    ps: Vec<V>,
    body: C,
}
struct C {
    ls: Vec<(V, R)>,
    ret: V,
}
struct H {
    body: C,
    done: Option<(V, C)>,
    arms: Vec<(Op, Vec<V>, C)>,
}
struct F {
    name: String,
    cv: u8,
    ps: Vec<V>,
    req: Vec<usize>,
    body: C,
}

/// What may stand at a place.
#[derive(Clone, Default)]
struct Cx {
    cv: u8,
    av: Vec<usize>,
    resume: bool,
    depth: usize,
    /// a handle here is closed on the spot
    here: Option<usize>,
}

pub struct G {
    pub r: Rng,
    n: usize,
    vars: Vec<V>,
    funs: Vec<(V, u8, usize)>,
    fs: Vec<(u8, usize, Vec<usize>)>,
    budget: i64,
    pub level: u64,
}

impl G {
    pub fn new(seed: u64, level: u64) -> Self {
        G { r: Rng::new(seed), n: 0, vars: vec![], funs: vec![], fs: vec![], budget: 0, level }
    }
    fn fresh(&mut self) -> V {
        self.n += 1;
        format!("%v{}", self.n)
    }
    fn on(&self, bit: u64) -> bool {
        self.level >> bit & 1 == 1
    }
    fn val(&mut self, c: &mut C) -> V {
        if self.vars.is_empty() || self.r.chance(1, 6) {
            let v = self.fresh();
            let k = *self.r.pick(&[0, 1, 2, 3, 5, 7, 10, 100]);
            c.ls.push((v.clone(), R::Const(k)));
            self.vars.push(v.clone());
            return v;
        }
        let k = self.vars.len();
        let i = if self.r.chance(1, 2) { k - 1 - self.r.below(k.min(3)) } else { self.r.below(k) };
        self.vars[i].clone()
    }
    fn comp(&mut self, cx: &Cx, max: usize) -> C {
        let (kv, kf) = (self.vars.len(), self.funs.len());
        let mut c = C { ls: vec![], ret: String::new() };
        for _ in 0..self.r.range(1, max) {
            self.stmt(cx, &mut c);
        }
        c.ret = self.val(&mut c);
        self.vars.truncate(kv);
        self.funs.truncate(kf);
        c
    }
    fn push(&mut self, c: &mut C, r: R) -> V {
        let v = self.fresh();
        c.ls.push((v.clone(), r));
        self.vars.push(v.clone());
        v
    }
    fn stmt(&mut self, cx: &Cx, c: &mut C) {
        self.budget -= 1;
        if self.budget < 0 {
            return;
        }
        match self.r.below(16) {
            0..=1 => {
                let (a, b) = (self.val(c), self.val(c));
                let o = *self.r.pick(&["addi", "subi", "muli", "xor"]);
                self.push(c, R::Bin(o, a, b));
            }
            2..=3 => {
                let a = self.val(c);
                self.push(c, R::Out(a));
            }
            4..=8 => self.perform(cx, c),
            9 => self.call(cx, c),
            10..=11 => {
                if cx.depth < 4 {
                    let q = self.val(c);
                    let inner = Cx { depth: cx.depth + 1, ..cx.clone() };
                    let (a, b) = (self.comp(&inner, 3), self.comp(&inner, 3));
                    self.push(c, R::If(q, Box::new(a), Box::new(b)));
                }
            }
            12 => {
                if cx.resume {
                    let a = self.val(c);
                    self.push(c, R::Resume(a));
                } else {
                    self.perform(cx, c);
                }
            }
            13 => {
                if self.on(4) && cx.depth < 4 {
                    let cv = self.r.range(0, cx.cv as usize) as u8;
                    let n = self.r.below(3);
                    let ps: Vec<V> = (0..n).map(|_| self.fresh()).collect();
                    let (kv, kf) = (self.vars.len(), self.funs.len());
                    self.vars.extend(ps.iter().cloned());
                    let inner = Cx { cv, av: if cv == 0 { vec![] } else { cx.av.clone() }, resume: false, depth: cx.depth + 1, here: None };
                    let body = self.comp(&inner, 3);
                    self.vars.truncate(kv);
                    self.funs.truncate(kf);
                    let v = self.fresh();
                    c.ls.push((v.clone(), R::Lambda(Box::new(L { cv, ps, body }))));
                    self.funs.push((v, cv, n));
                }
                self.call_val(cx, c);
            }
            _ => {
                if cx.depth < 3 && (cx.cv == 2 || cx.here.is_some()) {
                    self.handle(cx, c);
                } else {
                    self.call_val(cx, c);
                }
            }
        }
    }
    fn call_val(&mut self, cx: &Cx, c: &mut C) {
        let fit: Vec<_> = self.funs.iter().filter(|f| f.1 <= cx.cv).cloned().collect();
        if fit.is_empty() {
            return self.perform(cx, c);
        }
        let (f, cv, n) = self.r.pick(&fit).clone();
        let a: Vec<V> = (0..n).map(|_| self.val(c)).collect();
        self.push(c, R::CallVal(f, cv, a));
    }
    fn perform(&mut self, cx: &Cx, c: &mut C) {
        let cand: Vec<Op> = ops().into_iter().filter(|o| cx.av.contains(&o.ab) && (cx.cv == 2 || !o.general && cx.cv == 1)).collect();
        if cand.is_empty() {
            return self.call(cx, c);
        }
        let o = self.r.pick(&cand).clone();
        let a: Vec<V> = (0..o.n).map(|_| self.val(c)).collect();
        self.push(c, R::Perform(o, a));
    }
    fn call(&mut self, cx: &Cx, c: &mut C) {
        let fit: Vec<usize> = (0..self.fs.len()).filter(|i| self.fs[*i].0 <= cx.cv && self.fs[*i].2.iter().all(|a| cx.av.contains(a))).collect();
        if fit.is_empty() {
            let a = self.val(c);
            self.push(c, R::Out(a));
            return;
        }
        let f = *self.r.pick(&fit);
        let a: Vec<V> = (0..self.fs[f].1).map(|_| self.val(c)).collect();
        self.push(c, R::Call(f, a));
    }
    fn handle(&mut self, cx: &Cx, c: &mut C) {
        let mut abs: Vec<usize> = vec![];
        for _ in 0..*self.r.pick(&[1, 1, 2, 2, 3, 5]) {
            let a = self.r.below(AB.len());
            if !abs.contains(&a) {
                abs.push(a);
            }
        }
        let mut av = cx.av.clone();
        av.extend(abs.iter().filter(|a| !cx.av.contains(a)));
        let inner = Cx { cv: 2, av, resume: false, depth: cx.depth + 1, here: None };
        let body = self.comp(&inner, 6);
        // completion and arms are outside the handler
        let out = Cx { cv: if cx.here.is_some() { cx.cv } else { 2 }, av: cx.av.clone(), resume: false, depth: cx.depth + 1, here: cx.here };
        let done = if self.r.chance(3, 4) {
            let x = self.fresh();
            self.vars.push(x.clone());
            let b = self.comp(&out, 3);
            self.vars.retain(|v| *v != x);
            Some((x, b))
        } else {
            None
        };
        let mut arms = vec![];
        for o in ops().into_iter().filter(|o| abs.contains(&o.ab)) {
            let k = self.vars.len();
            let ps: Vec<V> = (0..o.n).map(|_| self.fresh()).collect();
            self.vars.extend(ps.iter().cloned());
            let kf = std::mem::take(&mut self.funs);
            // an fn arm runs under the performer's handlers, its own included: it
            // performs lower abilities only, so that programs end
            let b = if o.general { self.op_arm(&out) } else { self.comp(&Cx { cv: 1, av: if self.on(0) { cx.av.iter().copied().filter(|a| *a < o.ab).collect() } else { vec![] }, resume: false, depth: 3, here: None }, 3) };
            self.funs = kf;
            self.vars.truncate(k);
            arms.push((o, ps, b));
        }
        self.push(c, R::Handle(Box::new(H { body, done, arms })));
    }
    fn op_arm(&mut self, out: &Cx) -> C {
        let k = self.vars.len();
        let mut c = C { ls: vec![], ret: String::new() };
        let cx = Cx { cv: if self.on(1) { 2 } else { 0 }, av: if self.on(1) { out.av.clone() } else { vec![] }, resume: false, depth: out.depth + 1, here: None };
        for _ in 0..self.r.below(3) {
            self.stmt(&cx, &mut c);
        }
        let after = self.on(2) && self.r.chance(2, 3);
        if !self.r.chance(1, 5) {
            let a = self.val(&mut c);
            if self.on(3) && self.r.chance(1, 5) {
                // in one branch only, or in both
                let q = self.val(&mut c);
                let w = self.fresh();
                let x = C { ls: vec![(w.clone(), R::Resume(a.clone()))], ret: w };
                let y = if self.r.chance(1, 2) {
                    let w = self.fresh();
                    C { ls: vec![(w.clone(), R::Resume(q.clone()))], ret: w }
                } else {
                    self.comp(&cx, 2)
                };
                self.push(&mut c, R::If(q, Box::new(x), Box::new(y)));
            } else {
                self.push(&mut c, R::Resume(a));
            }
            if after {
                for _ in 0..self.r.range(1, 2) {
                    self.stmt(&cx, &mut c);
                }
                c.ret = self.val(&mut c);
            } else {
                c.ret = self.vars.last().unwrap().clone();
            }
        } else {
            c.ret = self.val(&mut c);
        }
        self.vars.truncate(k);
        c
    }
    fn func(&mut self, i: usize, last: bool) -> F {
        self.budget = 20;
        let cv = if last { 0 } else { self.r.range(0, 2) as u8 };
        let ps: Vec<V> = (0..if last { 2 } else { self.r.below(3) }).map(|_| self.fresh()).collect();
        let mut req = vec![];
        if cv > 0 {
            for a in 0..AB.len() {
                if self.r.chance(1, 2) {
                    req.push(a);
                }
            }
        }
        self.vars = ps.clone();
        self.funs.clear();
        let cx = Cx { cv, av: req.clone(), resume: false, depth: 0, here: if cv == 2 { None } else { Some(0) } };
        let mut c = C { ls: vec![], ret: String::new() };
        if last {
            self.handle(&cx, &mut c);
        }
        for _ in 0..self.r.range(1, 4) {
            self.stmt(&cx, &mut c);
        }
        c.ret = self.val(&mut c);
        self.fs.push((cv, ps.len(), req.clone()));
        F { name: if last { "entry".into() } else { format!("f{i}") }, cv, ps, req, body: c }
    }
    /// The program in both forms.
    pub fn module(&mut self) -> (String, String) {
        let n = self.r.range(1, 3);
        let fs: Vec<F> = (0..=n).map(|i| self.func(i, i == n)).collect();
        (Src::module(&fs), Leg::module(&fs))
    }
}

const CV: [&str; 3] = ["direct", "evidence_direct", "cps"];

/// The direct-style form.
struct Src<'a> {
    s: String,
    fs: &'a [F],
    n: usize,
    tok: Vec<V>,
}
impl<'a> Src<'a> {
    fn module(fs: &'a [F]) -> String {
        let mut e = Src { s: String::new(), fs, n: 0, tok: vec![] };
        e.s += "core.module @m {\n  tribute_control.func @vp_out(%a: core.i64) -> core.i64 convention(direct) attributes {abi = \"C\"}\n";
        for f in fs {
            let _ = writeln!(e.s, "  tribute_control.func @{}({}) -> core.i32 convention({}) {{", f.name, params(&f.ps), CV[f.cv as usize]);
            e.comp(&f.body, "tribute_control.return");
            e.s += "  }\n";
        }
        e.s += "}\n";
        e.s
    }
    fn t(&mut self) -> V {
        self.n += 1;
        format!("%s{}", self.n)
    }
    fn comp(&mut self, c: &C, term: &str) {
        for (v, r) in &c.ls {
            self.rhs(v, r);
        }
        let _ = writeln!(self.s, "    {term} {}", c.ret);
    }
    fn rhs(&mut self, v: &V, r: &R) {
        let call = |a: &[V]| if a.is_empty() { String::new() } else { format!("{} ", a.join(", ")) };
        match r {
            R::Const(k) => drop(writeln!(self.s, "    {v} = arith.const {{value = {k}}} : core.i32")),
            R::Bin(o, a, b) => {
                let (m, w) = (self.t(), self.t());
                self.s += &bin(v, o, a, b, &m, &w);
            }
            R::Out(a) => {
                let (w, q) = (self.t(), self.t());
                let _ = writeln!(self.s, "    {w} = arith.extend {a} : core.i64\n    {q} = tribute_control.call {w} {{callee = @vp_out}} : core.i64\n    {v} = arith.trunc {q} : core.i32");
            }
            R::Perform(o, a) => drop(writeln!(
                self.s,
                "    {v} = tribute_control.perform {}{{ability_ref = core.ability_ref() {{name = @{}}}, op_name = @{}, operation_kind = @{}}} : core.i32",
                call(a),
                AB[o.ab],
                o.name,
                if o.general { "op" } else { "fn" }
            )),
            R::Call(f, a) => drop(writeln!(self.s, "    {v} = tribute_control.call {}{{callee = @{}}} : core.i32", call(a), self.fs[*f].name)),
            R::CallVal(f, _, a) => {
                let mut l = vec![f.clone()];
                l.extend(a.iter().cloned());
                let _ = writeln!(self.s, "    {v} = tribute_control.call_indirect {} : core.i32", l.join(", "));
            }
            R::Resume(a) => drop(writeln!(self.s, "    {v} = tribute_control.resume {}, {a} : core.i32", self.tok.last().unwrap())),
            R::If(q, a, b) => {
                let (z, i) = (self.t(), self.t());
                let _ = writeln!(self.s, "    {z} = arith.const {{value = 3}} : core.i32\n    {i} = arith.cmpi {q}, {z} {{predicate = @slt}} : core.i1\n    {v} = scf.if {i} : core.i32 {{");
                self.comp(a, "scf.yield");
                self.s += "    } {\n";
                self.comp(b, "scf.yield");
                self.s += "    }\n";
            }
            R::Lambda(l) => {
                let out = std::mem::take(&mut self.s);
                self.comp(&l.body, "tribute_control.return");
                let body = std::mem::replace(&mut self.s, out);
                let caps = free(&body, &l.ps);
                let _ = writeln!(self.s, "    {v} = tribute_control.lambda({}) -> core.i32 convention({}) captures [{}] {{", params(&l.ps), CV[l.cv as usize], caps.join(", "));
                self.s += &body;
                self.s += "    }\n";
            }
            R::Handle(h) => {
                let _ = writeln!(self.s, "    {v} = tribute_control.handle : core.i32 {{");
                self.comp(&h.body, "tribute_control.yield");
                self.s += "    } {\n";
                match &h.done {
                    Some((x, c)) => {
                        let _ = writeln!(self.s, "    ^completion({x}: core.i32):");
                        self.comp(c, "tribute_control.yield");
                    }
                    None => {
                        let x = self.t();
                        let _ = writeln!(self.s, "    ^completion({x}: core.i32):\n    tribute_control.yield {x}");
                    }
                }
                self.s += "    } {\n";
                for (o, ps, c) in &h.arms {
                    let _ = writeln!(
                        self.s,
                        "    tribute_control.handler {{ability_ref = core.ability_ref() {{name = @{}}}, kind = @{}, op_name = @{}, operation_result_type = core.i32}} {{",
                        AB[o.ab],
                        if o.general { "op" } else { "fn" },
                        o.name
                    );
                    let mut l: Vec<String> = ps.iter().map(|p| format!("{p}: core.i32")).collect();
                    if o.general {
                        let t = self.t();
                        l.push(format!("{t}: tribute_control.resume_token(core.i32, core.i32)"));
                        self.tok.push(t);
                    }
                    if l.is_empty() {
                        self.s += "    ^arm:\n";
                    } else {
                        let _ = writeln!(self.s, "    ^arm({}):", l.join(", "));
                    }
                    self.comp(c, "tribute_control.yield");
                    if o.general {
                        self.tok.pop();
                    }
                    self.s += "    }\n";
                }
                self.s += "    }\n";
            }
        }
    }
}

fn params(ps: &[V]) -> String {
    ps.iter().map(|p| format!("{p}: core.i32")).collect::<Vec<_>>().join(", ")
}
/// values stay small: every representation holds them
fn bin(v: &V, o: &str, a: &V, b: &V, m: &V, w: &V) -> String {
    format!("    {w} = arith.{o} {a}, {b} : core.i32\n    {m} = arith.const {{value = 4095}} : core.i32\n    {v} = arith.and {w}, {m} : core.i32\n")
}
fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !(c == '%' || c.is_alphanumeric() || c == '_')).filter(|w| w.starts_with('%')).map(|w| w.to_string()).collect()
}
/// Values a piece of text uses and does not define.
fn free(body: &str, ps: &[V]) -> Vec<V> {
    let mut defs: HashSet<String> = ps.iter().cloned().collect();
    for l in body.lines() {
        if let Some((d, _)) = l.split_once(" = ") {
            if d.trim().starts_with('%') && !d.contains('(') {
                defs.insert(d.trim().to_string());
            }
        }
        let l = l.trim();
        if l.starts_with('^') || l.contains("lambda(") {
            // block arguments and parameters: names followed by a colon
            for p in l.split(['(', ',']) {
                if let Some((n, _)) = p.trim().split_once(": ") {
                    if n.starts_with('%') {
                        defs.insert(n.to_string());
                    }
                }
            }
        }
    }
    let mut seen = vec![];
    for w in words(body) {
        if !defs.contains(&w) && !seen.contains(&w) {
            seen.push(w);
        }
    }
    seen
}

const ANY: &str = "tribute_rt.anyref";
const KT: &str = "closure.closure(core.func(tribute_rt.anyref, tribute_rt.anyref))";
const EV: &str = "core.array(adt.struct() {fields = [[@ability_id, core.i32], [@prompt_tag, core.i32], [@tr_dispatch_fn, core.ptr], [@handler_dispatch, core.ptr]], name = @_Marker})";

/// The form the front end emits.
struct Leg<'a> {
    s: String,
    fs: &'a [F],
    n: usize,
    tag: usize,
    /// evidence in scope, the owner of the arm and its resumption
    ev: Option<V>,
    owner: Option<V>,
    k: Vec<V>,
}
impl<'a> Leg<'a> {
    fn module(fs: &'a [F]) -> String {
        let mut e = Leg { s: String::new(), fs, n: 0, tag: 0, ev: None, owner: None, k: vec![] };
        e.s += "core.module @m {\n  !__tribute_cps_control = adt.enum() {name = @__tribute_cps_control, variants = [[@Normal, [tribute_rt.anyref]], [@Escape, [core.i32, tribute_rt.anyref]]]}\n";
        e.s += "  !__ability_args_tuple = adt.struct() {fields = [[@_0, tribute_rt.anyref], [@_1, tribute_rt.anyref]], name = @__ability_args_tuple}\n";
        for (n, ps, r) in [("vp_out", "core.i64", "core.i64"), ("vp_arg_i32", "core.i32", "core.i32"), ("vp_ret_i32", "core.i32", "core.i32")] {
            let _ = writeln!(e.s, "  func.func @{n}(%a: {ps}) -> {r} attributes {{abi = \"C\"}}");
        }
        let _ = writeln!(e.s, "  func.func @__identity_done_k(%e: {EV}, %v: {ANY}, %r: {ANY}) -> {ANY} {{\n    func.return %r\n  }}");
        let _ = writeln!(e.s, "  func.func @__normal_done_k(%e: {EV}, %v: {ANY}, %r: {ANY}) -> {ANY} {{\n    %c = adt.variant_new %r {{tag = @Normal, type = !__tribute_cps_control}} : {ANY}\n    func.return %c\n  }}");
        for f in fs {
            e.func(f);
        }
        e.s += "  func.func @main() -> core.nil {\n    %i0 = arith.const {value = 0} : core.i32\n    %a0 = func.call %i0 {callee = @vp_arg_i32} : core.i32\n    %i1 = arith.const {value = 1} : core.i32\n    %a1 = func.call %i1 {callee = @vp_arg_i32} : core.i32\n";
        e.s += "    %r = func.call %a0, %a1 {callee = @entry, tribute.calling_convention = 0} : core.i32\n    %q = func.call %r {callee = @vp_ret_i32} : core.i32\n    %n = arith.const {value = unit} : core.nil\n    func.return %n\n  }\n}\n";
        e.s
    }
    fn t(&mut self) -> V {
        self.n += 1;
        format!("%t{}", self.n)
    }
    fn l(&mut self, l: &str) {
        self.s.push_str("    ");
        self.s.push_str(l);
        self.s.push('\n');
    }
    /// `fresh = text`
    fn d(&mut self, text: &str) -> V {
        let v = self.t();
        self.l(&format!("{v} = {text}"));
        v
    }
    fn cast(&mut self, v: &str, t: &str) -> V {
        self.d(&format!("core.unrealized_conversion_cast {v} : {t}"))
    }
    fn func(&mut self, f: &F) {
        let mut ps = vec![];
        if f.cv > 0 {
            let e = self.t();
            ps.push(format!("{e}: {EV}"));
            self.ev = Some(e);
        }
        let mut k = String::new();
        if f.cv == 2 {
            k = self.t();
            ps.push(format!("{k}: {ANY}"));
        }
        ps.extend(f.ps.iter().map(|p| format!("{p}: core.i32")));
        let _ = writeln!(self.s, "  func.func @{}({}) -> {} attributes {{tribute.calling_convention = {}}} {{", f.name, ps.join(", "), if f.cv == 2 { ANY } else { "core.i32" }, f.cv);
        let r = if f.cv == 2 { self.comp(&f.body, 0, &k, true) } else { self.value(&f.body) };
        self.l(&format!("func.return {r}"));
        self.s += "  }\n";
        self.ev = None;
    }
    fn evidence(&mut self) -> V {
        match &self.ev {
            Some(e) => e.clone(),
            None => self.d(&format!("adt.ref_null {{type = {EV}}} : {EV}")),
        }
    }
    fn invoke(&mut self, k: &str, v: &str, t: &str) -> V {
        let k = self.cast(k, KT);
        let v = if t == ANY { v.to_string() } else { self.cast(v, ANY) };
        self.d(&format!("func.call_indirect {k}, {v} : {ANY}"))
    }
    /// Does evaluating it need a continuation? `prop`: nested handles do
    fn is_cps(&self, r: &R, prop: bool) -> bool {
        match r {
            R::Perform(o, _) => o.general,
            R::Call(f, _) => self.fs[*f].cv == 2,
            R::CallVal(_, cv, _) => *cv == 2,
            R::Handle(_) => prop,
            R::Resume(_) => true,
            R::If(_, a, b) => a.ls.iter().chain(b.ls.iter()).any(|x| self.is_cps(&x.1, prop)),
            _ => false,
        }
    }
    /// A body without continuation: its value.
    fn value(&mut self, c: &C) -> V {
        for (v, r) in &c.ls {
            self.direct(v, r);
        }
        c.ret.clone()
    }
    /// lower_normalized_block
    fn comp(&mut self, c: &C, from: usize, k: &str, prop: bool) -> V {
        for i in from..c.ls.len() {
            let (v, r) = &c.ls[i];
            if !self.is_cps(r, prop) {
                self.direct(v, r);
                continue;
            }
            let next = if i + 1 == c.ls.len() && c.ret == *v {
                k.to_string()
            } else {
                let x = self.t();
                let out = std::mem::take(&mut self.s);
                self.l(&format!("{v} = core.unrealized_conversion_cast {x} : core.i32"));
                let res = self.comp(c, i + 1, k, prop);
                self.l(&format!("func.return {res}"));
                let body = std::mem::replace(&mut self.s, out);
                self.lambda(&[(x, ANY)], ANY, &body, None, &[k.to_string()])
            };
            return self.cps(r, &next, prop);
        }
        self.invoke(k, &c.ret, "core.i32")
    }
    /// closure.lambda over a written body
    fn lambda(&mut self, ps: &[(V, &str)], ret: &str, body: &str, cv: Option<u8>, also: &[V]) -> V {
        let names: Vec<V> = ps.iter().map(|p| p.0.clone()).collect();
        let mut caps = free(body, &names);
        for x in also.iter().chain(self.owner.clone().iter()) {
            if !caps.contains(x) {
                caps.push(x.clone());
            }
        }
        if let Some(e) = &self.ev {
            caps.retain(|x| x != e);
        }
        let sig = ps.iter().map(|(p, t)| format!("{p}: {t}")).collect::<Vec<_>>().join(", ");
        let v = self.t();
        let at = cv.map_or(String::new(), |c| format!(" {{tribute.calling_convention = {c}}}"));
        let caps = if caps.is_empty() { String::new() } else { format!(" [{}]", caps.join(", ")) };
        self.l(&format!("{v} = closure.lambda({sig}) -> {ret}{at}{caps} {{"));
        self.s += body;
        self.l("}");
        v
    }
    fn done_k(&mut self, f: &str) -> V {
        let n = self.d(&format!("adt.ref_null {{type = {ANY}}} : {ANY}"));
        self.d(&format!("closure.new {n} {{func_ref = @{f}}} : {KT}"))
    }
    fn pack(&mut self, a: &[V]) -> Vec<V> {
        if a.len() < 2 {
            return a.to_vec();
        }
        let b: Vec<V> = a.iter().map(|x| self.cast(x, ANY)).collect();
        vec![self.d(&format!("adt.struct_new {} {{type = !__ability_args_tuple}} : {ANY}", b.join(", ")))]
    }
    /// A right-hand side that gives its value at once.
    fn direct(&mut self, v: &V, r: &R) {
        match r {
            R::Const(k) => self.l(&format!("{v} = arith.const {{value = {k}}} : core.i32")),
            R::Bin(o, a, b) => {
                let (m, w) = (self.t(), self.t());
                self.s += &bin(v, o, a, b, &m, &w);
            }
            R::Out(a) => {
                let w = self.d(&format!("arith.extend {a} : core.i64"));
                let q = self.d(&format!("func.call {w} {{callee = @vp_out}} : core.i64"));
                self.l(&format!("{v} = arith.trunc {q} : core.i32"));
            }
            R::Perform(o, a) => {
                let a = self.pack(a);
                let sep = if a.is_empty() { "" } else { " " };
                let q = self.d(&format!("ability.legacy_call {}{sep}{{ability_ref = core.ability_ref() {{name = @{}}}, op_name = @{}}} : {ANY}", a.join(", "), AB[o.ab], o.name));
                self.l(&format!("{v} = core.unrealized_conversion_cast {q} : core.i32"));
            }
            R::Call(f, a) => {
                let cv = self.fs[*f].cv;
                let mut l = vec![];
                if cv == 1 {
                    l.push(self.evidence());
                }
                l.extend(a.iter().cloned());
                let sep = if l.is_empty() { "" } else { " " };
                self.l(&format!("{v} = func.call {}{sep}{{callee = @{}, tribute.calling_convention = {cv}}} : core.i32", l.join(", "), self.fs[*f].name));
            }
            R::CallVal(f, cv, a) => {
                let mut l = vec![f.clone()];
                if *cv == 1 {
                    l.push(self.evidence());
                }
                l.extend(a.iter().cloned());
                self.l(&format!("{v} = func.call_indirect {} {{tribute.calling_convention = {cv}}} : core.i32", l.join(", ")));
            }
            R::If(q, a, b) => {
                let i = self.cond(q);
                self.l(&format!("{v} = scf.if {i} : core.i32 {{"));
                let x = self.value(a);
                self.l(&format!("scf.yield {x}"));
                self.l("} {");
                let x = self.value(b);
                self.l(&format!("scf.yield {x}"));
                self.l("}");
            }
            R::Lambda(l) => {
                let (ev, out) = (self.ev.clone(), std::mem::take(&mut self.s));
                let mut ps = vec![];
                if l.cv > 0 {
                    let e = self.t();
                    ps.push((e.clone(), EV));
                    self.ev = Some(e);
                } else {
                    self.ev = None;
                }
                let mut k = String::new();
                if l.cv == 2 {
                    k = self.t();
                    ps.push((k.clone(), ANY));
                }
                ps.extend(l.ps.iter().map(|p| (p.clone(), "core.i32")));
                let res = if l.cv == 2 { self.comp(&l.body, 0, &k, true) } else { self.value(&l.body) };
                self.l(&format!("func.return {res}"));
                let body = std::mem::replace(&mut self.s, out);
                self.ev = ev;
                let c = self.lambda(&ps, if l.cv == 2 { ANY } else { "core.i32" }, &body, Some(l.cv), &[]);
                // the name the program knows it by
                let last = format!("    {c} = closure.lambda(");
                let at = self.s.rfind(&last).unwrap();
                self.s.replace_range(at..at + last.len(), &format!("    {v} = closure.lambda("));
            }
            R::Handle(h) => {
                let k = self.done_k("__identity_done_k");
                let a = self.handle(h, &k, false);
                self.l(&format!("{v} = core.unrealized_conversion_cast {a} : core.i32"));
            }
            R::Resume(_) => unreachable!(),
        }
    }
    fn cond(&mut self, q: &V) -> V {
        let z = self.d("arith.const {value = 3} : core.i32");
        self.d(&format!("arith.cmpi {q}, {z} {{predicate = @slt}} : core.i1"))
    }
    /// A right-hand side that passes its value to a continuation.
    fn cps(&mut self, r: &R, k: &str, prop: bool) -> V {
        match r {
            R::Perform(o, a) => {
                let a = self.pack(a);
                let mut l = vec![k.to_string()];
                l.extend(a);
                self.d(&format!("ability.legacy_perform {} {{ability_ref = core.ability_ref() {{name = @{}}}, op_name = @{}}} : {ANY}", l.join(", "), AB[o.ab], o.name))
            }
            R::Call(f, a) => {
                let mut l = vec![self.evidence(), k.to_string()];
                l.extend(a.iter().cloned());
                self.d(&format!("func.call {} {{callee = @{}, tribute.calling_convention = 2}} : {ANY}", l.join(", "), self.fs[*f].name))
            }
            R::CallVal(f, _, a) => {
                let e = self.evidence();
                let ty = format!("closure.closure(core.func({ANY}, {EV}, {ANY}{}))", ", core.i32".repeat(a.len()));
                let c = self.cast(f, &ty);
                let mut l = vec![c, e, k.to_string()];
                l.extend(a.iter().cloned());
                self.d(&format!("func.call_indirect {} {{tribute.calling_convention = 2}} : {ANY}", l.join(", ")))
            }
            R::If(q, a, b) => {
                let i = self.cond(q);
                let v = self.t();
                self.l(&format!("{v} = scf.if {i} : {ANY} {{"));
                let x = self.comp(a, 0, k, prop);
                self.l(&format!("scf.yield {x}"));
                self.l("} {");
                let x = self.comp(b, 0, k, prop);
                self.l(&format!("scf.yield {x}"));
                self.l("}");
                v
            }
            R::Resume(a) => {
                let t = self.k.last().unwrap().clone();
                let owner = self.owner.clone().unwrap();
                let ans = self.invoke(&t, a, "core.i32");
                let ct = "type = !__tribute_cps_control";
                let n = self.d(&format!("adt.variant_is {ans} {{tag = @Normal, {ct}}} : core.i1"));
                let v = self.t();
                self.l(&format!("{v} = scf.if {n} : {ANY} {{"));
                let c = self.d(&format!("adt.variant_cast {ans} {{tag = @Normal, {ct}}} : {ANY}"));
                let p = self.d(&format!("adt.variant_get {c} {{field = 0, tag = @Normal, {ct}}} : {ANY}"));
                let p = self.cast(&p, "core.i32");
                let aft = self.invoke(k, &p, "core.i32");
                let e = self.d(&format!("adt.variant_cast {aft} {{tag = @Escape, {ct}}} : {ANY}"));
                let o = self.d(&format!("adt.variant_get {e} {{field = 0, tag = @Escape, {ct}}} : core.i32"));
                let p = self.d(&format!("adt.variant_get {e} {{field = 1, tag = @Escape, {ct}}} : {ANY}"));
                let m = self.d(&format!("arith.cmpi {o}, {owner} {{predicate = @eq}} : core.i1"));
                let s = self.t();
                self.l(&format!("{s} = scf.if {m} : {ANY} {{"));
                let w = self.d(&format!("adt.variant_new {p} {{tag = @Normal, {ct}}} : {ANY}"));
                self.l(&format!("scf.yield {w}"));
                self.l("} {");
                self.l(&format!("scf.yield {aft}"));
                self.l("}");
                self.l(&format!("scf.yield {s}"));
                self.l("} {");
                self.l(&format!("scf.yield {ans}"));
                self.l("}");
                v
            }
            R::Handle(h) => self.handle(h, k, true),
            _ => unreachable!(),
        }
    }
    fn handle(&mut self, h: &H, k: &str, prop: bool) -> V {
        self.tag += 1;
        let tag = self.tag;
        // body
        let x = self.t();
        let out = std::mem::take(&mut self.s);
        let r = self.comp(&h.body, 0, &x, true);
        self.l(&format!("func.return {r}"));
        let body = std::mem::replace(&mut self.s, out);
        let f = self.lambda(&[(x, ANY)], ANY, &body, None, &[]);
        let nk = self.done_k("__normal_done_k");
        let b = self.d(&format!("func.call_indirect {f}, {nk} : {ANY}"));
        // completion, escape
        let x = self.t();
        let out = std::mem::take(&mut self.s);
        self.l("ability.done {");
        self.l(&format!("^done({x}: {ANY}):"));
        let y = match &h.done {
            Some((v, c)) => {
                self.l(&format!("{v} = core.unrealized_conversion_cast {x} : core.i32"));
                self.comp(c, 0, k, prop)
            }
            None => {
                let v = self.cast(&x, "core.i32");
                self.invoke(k, &v, "core.i32")
            }
        };
        self.l(&format!("scf.yield {y}"));
        self.l("}");
        for (o, _, _) in &h.arms {
            let (p, q) = (self.t(), self.t());
            self.l(&format!("ability.{} {{ability_ref = core.ability_ref() {{name = @{}}}, op_name = @{}}} {{", if o.general { "suspend" } else { "yield" }, AB[o.ab], o.name));
            self.l(&format!("^arm({p}: {ANY}, {q}: {ANY}):"));
            self.l(&format!("scf.yield {q}"));
            self.l("}");
        }
        self.l("} {");
        let x = self.t();
        self.l(&format!("^escape({x}: {ANY}):"));
        let y = self.invoke(k, &x, ANY);
        self.l(&format!("scf.yield {y}"));
        self.l("}");
        let regions = std::mem::replace(&mut self.s, out);
        let arms: Vec<&(Op, Vec<V>, C)> = h.arms.iter().collect();
        let hf = self.dispatcher(&arms, true);
        let fns: Vec<_> = arms.into_iter().filter(|a| !a.0.general).collect();
        let tr = if fns.is_empty() { self.d(&format!("arith.const {{value = 0}} : {ANY}")) } else { self.dispatcher(&fns, false) };
        let owner = self.d("effect.fresh_prompt_tag : core.i32");
        let v = self.t();
        self.l(&format!("{v} = ability.legacy_handle_dispatch {b}, {owner}, {hf}, {tr} {{result_type = {ANY}, tag = {tag}}} : {ANY} {{"));
        self.s += &regions;
        v
    }
    fn dispatcher(&mut self, arms: &[&(Op, Vec<V>, C)], all: bool) -> V {
        let (k, own, ix, val) = (self.t(), self.t(), self.t(), self.t());
        let saved = self.owner.clone();
        let out = std::mem::take(&mut self.s);
        let r = self.chain(arms, all.then_some((&k, &own)), &ix, &val);
        self.l(&format!("func.return {r}"));
        let body = std::mem::replace(&mut self.s, out);
        self.owner = None;
        let f = if all {
            self.lambda(&[(k, ANY), (own, "core.i32"), (ix, "core.i32"), (val, ANY)], ANY, &body, None, &[])
        } else {
            self.lambda(&[(ix, "core.i32"), (val, ANY)], ANY, &body, None, &[])
        };
        self.owner = saved;
        f
    }
    fn chain(&mut self, arms: &[&(Op, Vec<V>, C)], ko: Option<(&V, &V)>, ix: &V, val: &V) -> V {
        let (o, ps, c) = arms[0];
        let last = arms.len() == 1;
        let q = if last {
            self.d("arith.const {value = 1} : core.i1")
        } else {
            let e = tribute_ir::dialect::ability::compute_op_idx(Some(trunk_ir::Symbol::new(AB[o.ab])), Some(trunk_ir::Symbol::new(o.name)));
            let e = self.d(&format!("arith.const {{value = {e}}} : core.i32"));
            self.d(&format!("arith.cmpi {ix}, {e} {{predicate = @eq}} : core.i1"))
        };
        let v = self.t();
        self.l(&format!("{v} = scf.if {q} : {ANY} {{"));
        if ps.len() == 1 {
            self.l(&format!("{} = core.unrealized_conversion_cast {val} : core.i32", ps[0]));
        }
        if ps.len() > 1 {
            for (i, p) in ps.iter().enumerate() {
                let g = self.d(&format!("adt.struct_get {val} {{field = {i}, type = !__ability_args_tuple}} : {ANY}"));
                self.l(&format!("{p} = core.unrealized_conversion_cast {g} : core.i32"));
            }
        }
        let saved = self.owner.clone();
        let r = match ko {
            Some((k, own)) if o.general => {
                self.owner = Some(own.clone());
                self.k.push(k.clone());
                let (x, out) = (self.t(), std::mem::take(&mut self.s));
                let w = self.d(&format!("adt.variant_new {own}, {x} {{tag = @Escape, type = !__tribute_cps_control}} : {ANY}"));
                self.l(&format!("func.return {w}"));
                let body = std::mem::replace(&mut self.s, out);
                let esc = self.lambda(&[(x, ANY)], ANY, &body, None, &[]);
                let r = self.comp(c, 0, &esc, true);
                self.k.pop();
                r
            }
            _ => {
                if let Some((_, own)) = ko {
                    self.owner = Some(own.clone());
                }
                let id = self.done_k("__identity_done_k");
                self.comp(c, 0, &id, false)
            }
        };
        self.owner = saved;
        self.l(&format!("scf.yield {r}"));
        self.l("} {");
        if last {
            self.l("func.unreachable");
        } else {
            let r = self.chain(&arms[1..], ko, ix, val);
            self.l(&format!("scf.yield {r}"));
        }
        self.l("}");
        v
    }
}

fn middle(text: &str) -> Result<String, String> {
    let (mut ctx, m) = parse(text)?;
    panics(quiet(|| {
        shared(&mut ctx, m)?;
        Ok(trunk_ir::printer::print_module(&ctx, m.op()))
    }))
}
pub fn compile_native(text: &str, opt: bool, pol: RcPolicy) -> Result<Vec<u8>, String> {
    let t = middle(text)?;
    let (mut ctx, m) = parse(&bodies(&t))?;
    panics(quiet(|| {
        target(&mut ctx, m, true, opt)?;
        let ro = native::prepare(&mut ctx, m, pol)?;
        native::finish(&mut ctx, m, &ro)
    }))
}
pub fn compile_wasm(text: &str, opt: bool) -> Result<Vec<u8>, String> {
    crate::wasm::compile(&imports(&middle(text)?), opt)
}

pub fn run(a: &Args) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let (seed, n, na, level) = (a.u("seed", 1), a.u("n", 10), a.u("args", 2) as usize, a.u("level", 0));
    let mut cases: Vec<Value> = vec![];
    let (mut objs, mut mods, mut hows) = (vec![], vec![], vec![]);
    let files = a.s("files", "");
    let fixed: Vec<(String, String)> = if files.is_empty() {
        vec![]
    } else {
        let mut v: Vec<_> = std::fs::read_dir(&files).unwrap().map(|e| e.unwrap().path()).collect();
        v.sort();
        v.iter().map(|f| (f.file_stem().unwrap().to_string_lossy().to_string(), std::fs::read_to_string(f).unwrap())).collect()
    };
    for i in 0..n + fixed.len() as u64 {
        // arms are emitted once per dispatcher, so nesting multiplies the
        // legacy text: keep to sizes that compile quickly
        let mut k = 0;
        let (mut g, src, leg) = loop {
            let mut g = G::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_add(k * 7_919_777), level);
            let (src, leg) = g.module();
            if leg.lines().count() < 350 {
                break (g, src, leg);
            }
            k += 1;
        };
        let args: Vec<Vec<i128>> = (0..na).map(|_| (0..2).map(|_| *g.r.pick(&[0i128, 1, 2, 3, 4, 9])).collect()).collect();
        let mut id = format!("legacy-{seed}-{i}");
        let (mut src, mut leg, mut args) = (src, leg, args);
        if let Some((name, text)) = i.checked_sub(n).and_then(|j| fixed.get(j as usize)) {
            // a committed pair of forms of one program
            let (x, y) = text.split_once("// compiled from:").unwrap();
            (src, leg) = (x.to_string(), y.to_string());
            args = vec![vec![9, 2]];
            id = name.clone();
        }
        crate::case(&leg);
        let (ctx, m) = parse(&src).unwrap_or_else(|e| panic!("{id}: {e}\n{src}"));
        if let Err(e) = parse(&leg) {
            panic!("{id}: {e}\n{leg}");
        }
        let av: Vec<Value> = args.iter().map(|v| Value::Array(v.iter().map(|x| arg_value(Ty::I32, *x)).collect())).collect();
        let progs = vec![json!({"p": dump_program(&ctx, m), "how": "source"})];
        for opt in [false, true] {
            let key = format!("{id}/n{}", opt as u8);
            let r = compile_native(&leg, opt, RcPolicy::bits(if opt { 7 } else { i % 8 }));
            hows.push((key.clone(), cases.len(), format!("native code, optimized: {opt}"), r.as_ref().err().cloned()));
            if let Ok(b) = r {
                objs.push((key, b, args.clone()));
            }
            if a.u("wasm", 1) == 0 {
                continue;
            }
            let key = format!("{id}/w{}", opt as u8);
            let r = compile_wasm(&leg, opt);
            hows.push((key.clone(), cases.len(), format!("wasm code, optimized: {opt}"), r.as_ref().err().cloned()));
            if let Ok(b) = r {
                mods.push((key, b, args.clone()));
            }
        }
        let obs: Vec<Vec<Value>> = vec![vec![]; args.len()];
        cases.push(json!({"id": id, "entry": "entry", "args": av, "progs": progs, "obs": obs, "text": format!("{src}\n// compiled from:\n{leg}")}));
    }
    crate::idle();
    let dir = a.s("dir", "");
    let dir = std::path::Path::new(&dir);
    std::fs::create_dir_all(dir).unwrap();
    let fail = |e: String| -> Vec<Value> {
        eprintln!("{e}");
        std::process::exit(2)
    };
    let mut seen = crate::observe::run_all(dir, &a.s("driver", ""), &objs, false, &a.s("rt", "")).unwrap_or_else(fail);
    seen.extend(crate::wasm::run_node(dir, &a.s("jsdriver", ""), &mods).unwrap_or_else(fail));
    for (key, c, how, err) in &hows {
        if let Some(e) = err {
            for o in cases[*c]["obs"].as_array_mut().unwrap() {
                o.as_array_mut().unwrap().push(json!({"how": how, "o": {"st": format!("not compiled: {e}"), "out": [], "rv": []}}));
            }
        }
        for (j, x) in seen.iter().filter(|x| x["case"] == **key).enumerate() {
            cases[*c]["obs"][j].as_array_mut().unwrap().push(json!({"how": how, "o": crate::observe::outcome(x)}));
        }
    }
    for c in cases {
        let _ = writeln!(out, "{c}");
    }
}

/// Debugging aid: --stage middle|native|wasm
pub fn show(a: &Args) {
    let text = std::fs::read_to_string(a.s("in", "")).unwrap();
    let opt = a.u("opt", 0) == 1;
    match a.s("stage", "middle").as_str() {
        "native" => println!("{:?}", compile_native(&text, opt, RcPolicy::bits(7)).map(|b| b.len())),
        "wasm" => std::fs::write(a.s("out", "/tmp/e/x.wasm"), compile_wasm(&text, opt).unwrap()).unwrap(),
        _ => println!("{}", middle(&text).unwrap_or_else(|e| e)),
    }
}
