//! Random well-typed direct-style programs: first-class functions, handlers,
//! performs and resumptions.
use crate::progen::{Sig, Ty};
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T {
    I64,
    I32,
    I1,
    F64,
    /// (i64, .. n times) -> i64 under a calling convention
    Fun(usize, u8),
    /// resume token of an operation with this result, in a handle with this result
    Tok(Box<T>, Box<T>),
}
impl T {
    fn s(&self) -> String {
        match self {
            T::I64 => "core.i64".into(),
            T::I32 => "core.i32".into(),
            T::I1 => "core.i1".into(),
            T::F64 => "core.f64".into(),
            T::Fun(n, c) => format!("tribute_control.callable({}) {{tribute.calling_convention = {c}}}", vec!["core.i64"; n + 1].join(", ")),
            T::Tok(a, b) => format!("tribute_control.resume_token({}, {})", a.s(), b.s()),
        }
    }
}
const CV: [&str; 3] = ["direct", "evidence_direct", "cps"];

#[derive(Clone)]
struct Op {
    ab: usize,
    name: &'static str,
    general: bool,
    params: Vec<T>,
    res: Option<T>, // None: never
}
const ABILITIES: [&str; 7] = [
    "core.ability_ref() {name = @State}",
    "core.ability_ref() {name = @Amb}",
    "core.ability_ref() {name = @Log}",
    "core.ability_ref() {name = @Ask}",
    "core.ability_ref(core.i64) {name = @Par}",
    "core.ability_ref(core.i32) {name = @Par}",
    "core.ability_ref() {name = @Mix}",
];
fn ops() -> Vec<Op> {
    use T::*;
    let o = |ab, name, general, params: &[T], res: Option<T>| Op { ab, name, general, params: params.to_vec(), res };
    vec![
        o(0, "get", true, &[], Some(I64)),
        o(0, "put", true, &[I64], Some(I64)),
        o(1, "flip", true, &[], Some(I1)),
        o(1, "fail", true, &[], None),
        o(1, "choose", true, &[I64, I1], Some(I64)),
        o(2, "write", false, &[I64], Some(I64)),
        o(2, "level", false, &[I1, I64], Some(I1)),
        o(3, "ask", false, &[], Some(I64)),
        o(4, "ask", false, &[], Some(I64)),
        o(4, "yield", true, &[I64], Some(I64)),
        o(5, "ask", false, &[], Some(I64)),
        o(5, "yield", true, &[I32], Some(I32)),
        o(6, "quick", false, &[I64, I64], Some(I64)),
        o(6, "slow", true, &[I64, F64], Some(F64)),
        o(6, "stop", true, &[I64], None),
        o(6, "wide", true, &[I64, I1, I64, F64], Some(I64)),
        o(2, "note", false, &[I64, I64, I1, I64], Some(I64)),
        o(0, "swap", true, &[I64, I64, I64], Some(I64)),
    ]
}

#[derive(Clone)]
struct F {
    name: String,
    cv: u8,
    params: Vec<T>,
    req: Vec<usize>, // abilities whose fn operations it asks for
}

#[derive(Clone, Default)]
struct Cx {
    cv: u8,
    /// general operations the innermost handle answers, here
    gen_ops: Vec<Op>,
    /// abilities whose fn operations are in scope
    fns: Vec<usize>,
    /// at most one general perform per path (arms may do more than resume)
    single: bool,
    depth: usize,
    nohandle: bool,
}

pub struct G {
    pub r: Rng,
    s: String,
    n: usize,
    fs: Vec<F>,
    all: Vec<Op>,
    vars: Vec<(String, T)>,
    /// no handlers, so that the closure passes apply
    pub pure_: bool,
    pub direct: bool,
    budget: i64,
}

impl G {
    pub fn new(seed: u64) -> Self {
        G { r: Rng::new(seed), s: String::new(), n: 0, fs: vec![], all: ops(), vars: vec![], pure_: false, direct: false, budget: 0 }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("%v{}", self.n)
    }
    fn line(&mut self, l: &str) {
        self.s.push_str("    ");
        self.s.push_str(l);
        self.s.push('\n');
    }
    fn have(&self, t: &T) -> Vec<String> {
        self.vars.iter().filter(|v| v.1 == *t).map(|v| v.0.clone()).collect()
    }
    fn konst(&mut self, t: &T) -> String {
        let v = self.fresh();
        let l = match t {
            T::I64 => {
                let k = *self.r.pick(&[0i64, 1, 2, 3, -1, 5, 10, 100, -7, i64::MAX, 1 << 33]);
                format!("{v} = arith.const {{value = {k}}} : core.i64")
            }
            T::I32 => format!("{v} = arith.const {{value = {}}} : core.i32", *self.r.pick(&[0, 1, 2, 3, -1, 7])),
            T::I1 => format!("{v} = arith.const {{value = {}}} : core.i1", self.r.below(2)),
            T::F64 => format!("{v} = arith.const {{value = {}.0}} : core.f64", self.r.below(5)),
            T::Fun(..) | T::Tok(..) => unreachable!(),
        };
        self.line(&l);
        v
    }
    /// A value of the type: one in scope, or made for the purpose.
    fn val(&mut self, t: &T, cx: &Cx) -> String {
        let h = self.have(t);
        if !h.is_empty() && !self.r.chance(1, 4) {
            // recent values first
            let k = h.len();
            let i = if self.r.chance(1, 2) { k - 1 - self.r.below(k.min(3)) } else { self.r.below(k) };
            return h[i].clone();
        }
        match t {
            T::Fun(n, c) => {
                if !h.is_empty() && self.r.chance(1, 2) {
                    return h[0].clone();
                }
                self.callable(*n, *c, cx)
            }
            T::I1 => {
                let (a, b) = (self.val(&T::I64, cx), self.val(&T::I64, cx));
                let v = self.fresh();
                let p = *self.r.pick(&["eq", "ne", "slt", "sge", "sgt"]);
                self.line(&format!("{v} = arith.cmpi {a}, {b} {{predicate = @{p}}} : core.i1"));
                v
            }
            _ => self.konst(t),
        }
    }
    fn add(&mut self, v: &str, t: T) {
        self.vars.push((v.to_string(), t));
    }
    /// A callable of this shape: a reference to a function, or a lambda.
    fn callable(&mut self, n: usize, c: u8, cx: &Cx) -> String {
        let fit: Vec<F> = self
            .fs
            .iter()
            .filter(|f| f.cv <= c && f.req.is_empty() && f.params.len() == n && f.params.iter().all(|p| *p == T::I64))
            .cloned()
            .collect();
        if !fit.is_empty() && self.r.chance(1, 3) {
            let f = self.r.pick(&fit).clone();
            let v = self.fresh();
            self.line(&format!("{v} = tribute_control.func_ref {{func_ref = @{}}} : {}", f.name, T::Fun(n, c).s()));
            return v;
        }
        self.lambda(n, c, cx)
    }
    fn lambda(&mut self, n: usize, c: u8, cx: &Cx) -> String {
        let v = self.fresh();
        // captures: any subset of what is in scope, tokens aside
        let mut caps: Vec<(String, T)> = vec![];
        for x in self.vars.clone() {
            if !matches!(x.1, T::Tok(..)) && caps.len() < 4 && self.r.chance(1, 3) {
                caps.push(x);
            }
        }
        let ps: Vec<String> = (0..n).map(|_| self.fresh()).collect();
        let sig = ps.iter().map(|p| format!("{p}: core.i64")).collect::<Vec<_>>().join(", ");
        let cands: Vec<String> = caps.iter().map(|x| x.0.clone()).collect();
        let text = std::mem::take(&mut self.s);
        let saved = std::mem::replace(&mut self.vars, caps);
        for p in &ps {
            self.add(p, T::I64);
        }
        let inner = Cx { cv: c, gen_ops: vec![], fns: if c >= 1 { cx.fns.clone() } else { vec![] }, single: true, depth: cx.depth + 1, nohandle: cx.nohandle };
        let r = self.body(&inner, &T::I64, 3);
        self.line(&format!("tribute_control.return {r}"));
        self.line("}");
        self.vars = saved;
        let body = std::mem::replace(&mut self.s, text);
        let words: std::collections::HashSet<&str> = body.split(|c: char| !(c == '%' || c.is_alphanumeric())).collect();
        let cl = cands.iter().filter(|x| words.contains(x.as_str())).cloned().collect::<Vec<_>>().join(", ");
        self.line(&format!("{v} = tribute_control.lambda({sig}) -> core.i64 convention({}) captures [{cl}] {{", CV[c as usize]));
        self.s.push_str(&body);
        v
    }
    /// Statements, then a value of type t.
    fn body(&mut self, cx: &Cx, t: &T, max: usize) -> String {
        let mut cx = cx.clone();
        for _ in 0..self.r.range(1, max) {
            self.stmt(&mut cx);
        }
        self.val(t, &cx)
    }
    /// A nested block: what it defines is not seen outside.
    fn scoped(&mut self, cx: &Cx, t: Option<&T>, max: usize, term: &str) -> bool {
        let keep = self.vars.len();
        let mut c2 = cx.clone();
        c2.depth += 1;
        for _ in 0..self.r.range(1, max) {
            self.stmt(&mut c2);
        }
        let l = match t {
            Some(t) => {
                let v = self.val(t, &c2);
                format!("{term} {v}")
            }
            None => term.to_string(),
        };
        self.line(&l);
        self.vars.truncate(keep);
        c2.gen_ops.is_empty() && !cx.gen_ops.is_empty()
    }
    fn stmt(&mut self, cx: &mut Cx) {
        self.budget -= 1;
        if self.budget < 0 {
            return;
        }
        let k = self.r.below(20);
        match k {
            0..=2 => {
                let (a, b) = (self.val(&T::I64, cx), self.val(&T::I64, cx));
                let v = self.fresh();
                let o = *self.r.pick(&["addi", "subi", "muli", "xor", "addi", "subi"]);
                self.line(&format!("{v} = arith.{o} {a}, {b} : core.i64"));
                self.add(&v, T::I64);
            }
            3..=5 => {
                let a = self.val(&T::I64, cx);
                let v = self.fresh();
                self.line(&format!("{v} = tribute_control.call {a} {{callee = @vp_out}} : core.i64"));
                self.add(&v, T::I64);
            }
            6..=7 => self.call(cx),
            8..=9 => {
                if cx.depth > 4 {
                    return;
                }
                let c = self.r.range(0, cx.cv as usize) as u8;
                let n = self.r.below(3);
                let f = self.callable(n, c, cx);
                self.add(&f, T::Fun(n, c));
                if self.r.chance(1, 2) {
                    self.call_ind(cx);
                }
            }
            10..=11 => self.call_ind(cx),
            12..=13 => {
                if cx.depth > 4 {
                    return;
                }
                let q = self.val(&T::I1, cx);
                let t = if self.r.chance(1, 4) { None } else { Some(self.r.pick(&[T::I64, T::I64, T::I1]).clone()) };
                let v = self.fresh();
                match &t {
                    Some(t) => self.line(&format!("{v} = scf.if {q} : {} {{", t.s())),
                    None => self.line(&format!("scf.if {q} {{")),
                }
                let a = self.scoped(cx, t.as_ref(), 3, "scf.yield");
                self.line("} {");
                let b = self.scoped(cx, t.as_ref(), 3, "scf.yield");
                self.line("}");
                if let Some(t) = t {
                    self.add(&v, t);
                }
                if (a || b) && cx.single {
                    cx.gen_ops.clear();
                }
            }
            14 => {
                if cx.depth > 3 || cx.cv < 2 {
                    return;
                }
                let q = self.val(&T::I32, cx);
                self.line(&format!("scf.switch {q} {{"));
                let mut used = false;
                let mut seen = vec![];
                for _ in 0..self.r.range(1, 2) {
                    let c = self.r.below(4);
                    if seen.contains(&c) {
                        continue;
                    }
                    seen.push(c);
                    self.line(&format!("scf.case {{value = {c}}} {{"));
                    used |= self.scoped(cx, None, 2, "scf.yield");
                    self.line("}");
                }
                self.line("scf.default {");
                used |= self.scoped(cx, None, 2, "scf.yield");
                self.line("}");
                self.line("}");
                if used && cx.single {
                    cx.gen_ops.clear();
                }
            }
            15..=16 => {
                if cx.cv == 2 && !self.pure_ && !cx.nohandle && cx.depth < 4 {
                    self.handle(cx);
                } else {
                    self.call(cx);
                }
            }
            _ => {
                if !self.perform(cx) {
                    self.call(cx);
                }
            }
        }
    }
    fn perform(&mut self, cx: &mut Cx) -> bool {
        let mut cand: Vec<Op> = cx.gen_ops.clone();
        if cx.cv >= 1 {
            for o in self.all.clone() {
                if !o.general && cx.fns.contains(&o.ab) {
                    cand.push(o);
                }
            }
        }
        if cand.is_empty() {
            return false;
        }
        // never results are rarer: nothing follows them
        let mut o = self.r.pick(&cand).clone();
        if o.res.is_none() && !self.r.chance(1, 3) {
            o = self.r.pick(&cand).clone();
        }
        let a: Vec<String> = o.params.clone().iter().map(|t| self.val(t, cx)).collect();
        let v = self.fresh();
        let sep = if a.is_empty() { "" } else { " " };
        let t = o.res.as_ref().map_or("core.never".into(), |t| t.s());
        self.line(&format!(
            "{v} = tribute_control.perform {}{sep}{{ability_ref = {}, op_name = @{}, operation_kind = @{}}} : {t}",
            a.join(", "),
            ABILITIES[o.ab],
            o.name,
            if o.general { "op" } else { "fn" }
        ));
        if let Some(t) = o.res {
            self.add(&v, t);
        }
        if o.general && cx.single {
            cx.gen_ops.clear();
        }
        true
    }
    fn call(&mut self, cx: &Cx) {
        let fit: Vec<F> = self.fs.iter().filter(|f| f.cv <= cx.cv && f.req.iter().all(|a| cx.fns.contains(a))).cloned().collect();
        if fit.is_empty() {
            return;
        }
        let f = self.r.pick(&fit).clone();
        let a: Vec<String> = f.params.iter().map(|t| self.val(t, cx)).collect();
        let v = self.fresh();
        let sep = if a.is_empty() { "" } else { " " };
        self.line(&format!("{v} = tribute_control.call {}{sep}{{callee = @{}}} : core.i64", a.join(", "), f.name));
        self.add(&v, T::I64);
    }
    fn call_ind(&mut self, cx: &Cx) {
        let fit: Vec<(String, T)> = self.vars.iter().filter(|v| matches!(v.1, T::Fun(_, c) if c <= cx.cv)).cloned().collect();
        if fit.is_empty() {
            return;
        }
        let (f, t) = self.r.pick(&fit).clone();
        let T::Fun(n, _) = t else { unreachable!() };
        let mut a = vec![f];
        for _ in 0..n {
            a.push(self.val(&T::I64, cx));
        }
        let v = self.fresh();
        self.line(&format!("{v} = tribute_control.call_indirect {} : core.i64", a.join(", ")));
        self.add(&v, T::I64);
    }
    fn handle(&mut self, cx: &mut Cx) {
        let rt = self.r.pick(&[T::I64, T::I64, T::I64, T::I1]).clone();
        let bt = self.r.pick(&[T::I64, T::I64, T::I1]).clone();
        // which abilities it handles; all operations of each
        let mut abs: Vec<usize> = vec![];
        let many = if self.r.chance(1, 12) { self.r.range(3, 5) } else { self.r.range(1, 3) };
        for _ in 0..many {
            let a = self.r.below(ABILITIES.len());
            if !abs.contains(&a) {
                abs.push(a);
            }
        }
        let single = self.r.chance(1, 2);
        let mine: Vec<Op> = self.all.iter().filter(|o| abs.contains(&o.ab)).cloned().collect();
        let v = self.fresh();
        let keep = self.vars.len();
        let mut fns = cx.fns.clone();
        fns.extend(abs.iter().copied().filter(|a| !cx.fns.contains(a)));
        let inner = Cx {
            cv: 2,
            gen_ops: mine.iter().filter(|o| o.general).cloned().collect(),
            fns,
            single,
            depth: cx.depth + 1,
            nohandle: cx.nohandle,
        };
        self.line(&format!("{v} = tribute_control.handle : {} {{", rt.s()));
        let mut c2 = inner.clone();
        for _ in 0..self.r.range(1, 5) {
            if self.r.chance(1, 2) {
                self.perform(&mut c2);
            }
            self.stmt(&mut c2);
        }
        let y = self.val(&bt, &c2);
        self.line(&format!("tribute_control.yield {y}"));
        self.vars.truncate(keep);
        // completion: outside the handler, so what surrounds it is in scope (own abilities only where
        // nothing is resumed: see the finding about completions of resumed handles)
        let resumes = mine.iter().any(|o| o.general);
        let done = Cx { cv: 2, gen_ops: vec![], fns: cx.fns.iter().copied().filter(|a| !resumes || !abs.contains(a)).collect(), single: true, depth: cx.depth + 1, nohandle: cx.nohandle };
        // arms: likewise, but for its own abilities
        let outer = Cx { cv: 2, gen_ops: vec![], fns: cx.fns.iter().copied().filter(|a| !abs.contains(a)).collect(), single: true, depth: cx.depth + 1, nohandle: cx.nohandle };
        let x = self.fresh();
        self.line("} {");
        self.line(&format!("^completion({x}: {}):", bt.s()));
        self.add(&x, bt.clone());
        let y = self.body(&done, &rt, 3);
        self.line(&format!("tribute_control.yield {y}"));
        self.vars.truncate(keep);
        self.line("} {");
        // arms come in any order, those of one ability not side by side
        let mut mine = mine;
        for i in (1..mine.len()).rev() {
            let j = self.r.below(i + 1);
            mine.swap(i, j);
        }
        for o in mine {
            self.arm(&o, &outer, &rt, single);
            self.vars.truncate(keep);
        }
        self.line("}");
        self.add(&v, rt);
    }
    fn arm(&mut self, o: &Op, outer: &Cx, rt: &T, single: bool) {
        let mut ps: Vec<(String, T)> = o.params.iter().map(|t| (self.fresh(), t.clone())).collect();
        let tok = if o.general && o.res.is_some() {
            let t = self.fresh();
            ps.push((t.clone(), T::Tok(Box::new(o.res.clone().unwrap()), Box::new(rt.clone()))));
            Some(t)
        } else {
            None
        };
        let never = o.res.is_none();
        self.line(&format!(
            "tribute_control.handler {{ability_ref = {}, kind = @{}, op_name = @{}, operation_result_type = {}}} {{",
            ABILITIES[o.ab],
            if o.general { "op" } else { "fn" },
            o.name,
            o.res.as_ref().map_or("core.never".into(), |t| t.s())
        ));
        if ps.is_empty() {
            self.line("^arm:");
        } else {
            let l = ps.iter().map(|(p, t)| format!("{p}: {}", t.s())).collect::<Vec<_>>().join(", ");
            self.line(&format!("^arm({l}):"));
        }
        for (p, t) in &ps {
            self.add(p, t.clone());
        }
        if !o.general {
            // answers in place: no effects of its own
            let cx = Cx { cv: 1, ..Cx::default() };
            let cx = Cx { depth: 3, ..cx };
            let y = self.body(&cx, o.res.as_ref().unwrap(), 2);
            self.line(&format!("tribute_control.yield {y}"));
        } else if never || self.r.chance(1, 4) {
            let outer = &Cx { nohandle: never || outer.nohandle, ..outer.clone() };
            let y = self.body(outer, rt, 3);
            self.line(&format!("tribute_control.yield {y}"));
        } else {
            let ot = o.res.clone().unwrap();
            let t = tok.unwrap();
            let x = self.body(outer, &ot, 2);
            let v = self.fresh();
            if single && self.r.chance(1, 3) {
                // resume through a function that captures the token, perhaps twice or never
                let l = self.fresh();
                let (p, q) = (self.fresh(), self.fresh());
                self.line(&format!("{l} = tribute_control.lambda({p}: {}) -> {} convention(cps) captures [{t}] {{", ot.s(), rt.s()));
                self.line(&format!("{q} = tribute_control.resume {t}, {p} : {}", rt.s()));
                self.line(&format!("tribute_control.return {q}"));
                self.line("}");
                if self.r.chance(1, 8) {
                    let y = self.body(outer, rt, 2);
                    self.line(&format!("tribute_control.yield {y}"));
                } else {
                    self.line(&format!("{v} = tribute_control.call_indirect {l}, {x} : {}", rt.s()));
                    self.add(&v, rt.clone());
                    let y = self.body(outer, rt, 2);
                    self.line(&format!("tribute_control.yield {y}"));
                }
            } else if self.r.chance(1, 4) {
                // resume in one branch or the other, or in one only
                let q = self.val(&T::I1, outer);
                self.line(&format!("{v} = scf.if {q} : {} {{", rt.s()));
                let both = self.r.chance(1, 2);
                for i in 0..2 {
                    if both || i == 0 {
                        let keep = self.vars.len();
                        let x2 = self.val(&ot, outer);
                        let w = self.fresh();
                        self.line(&format!("{w} = tribute_control.resume {t}, {x2} : {}", rt.s()));
                        self.line(&format!("scf.yield {w}"));
                        self.vars.truncate(keep);
                    } else {
                        self.scoped(outer, Some(rt), 2, "scf.yield");
                    }
                    self.line(if i == 0 { "} {" } else { "}" });
                }
                self.line(&format!("tribute_control.yield {v}"));
            } else {
                self.line(&format!("{v} = tribute_control.resume {t}, {x} : {}", rt.s()));
                if single {
                    self.add(&v, rt.clone());
                    let y = self.body(outer, rt, 3);
                    let y = if self.r.chance(1, 2) { v } else { y };
                    self.line(&format!("tribute_control.yield {y}"));
                } else {
                    self.line(&format!("tribute_control.yield {v}"));
                }
            }
        }
        self.line("}");
    }
    pub fn module(&mut self) -> (String, Sig) {
        self.s.push_str("core.module @m {\n  tribute_control.func @vp_out(%a: core.i64) -> core.i64 convention(direct) attributes {abi = \"C\"}\n");
        let n = self.r.range(1, 4);
        for i in 0..n {
            let cv = if self.direct { 0 } else { self.r.below(3) as u8 };
            let mut params = vec![];
            for _ in 0..self.r.below(4) {
                let t = match self.r.below(6) {
                    0 => T::I1,
                    1 => T::I32,
                    2 => T::Fun(self.r.below(3), self.r.range(0, cv as usize) as u8),
                    _ => T::I64,
                };
                params.push(t);
            }
            let mut req = vec![];
            if cv == 1 && !self.pure_ {
                for _ in 0..self.r.below(3) {
                    let a = *self.r.pick(&[2usize, 3, 4, 5, 6]);
                    if !req.contains(&a) {
                        req.push(a);
                    }
                }
            }
            self.func(F { name: format!("f{i}"), cv, params, req });
        }
        let cv = if self.direct { 0 } else { 2 };
        let np = self.r.range(1, 3);
        let params: Vec<T> = (0..np).map(|_| self.r.pick(&[T::I64, T::I64, T::I1, T::I32]).clone()).collect();
        let sig = Sig {
            name: "entry".into(),
            recursive: false,
            params: params.iter().map(|t| match t { T::I1 => Ty::I1, T::I32 => Ty::I32, _ => Ty::I64 }).collect(),
            ret: Ty::I64,
        };
        self.func(F { name: "entry".into(), cv, params, req: vec![] });
        self.s.push_str("}\n");
        (std::mem::take(&mut self.s), sig)
    }
    fn func(&mut self, f: F) {
        self.vars.clear();
        self.budget = 22;
        let mut l = vec![];
        for t in &f.params {
            let p = self.fresh();
            l.push(format!("{p}: {}", t.s()));
            self.add(&p, t.clone());
        }
        let _ = writeln!(self.s, "  tribute_control.func @{}({}) -> core.i64 convention({}) {{", f.name, l.join(", "), CV[f.cv as usize]);
        let mut cx = Cx { cv: f.cv, fns: f.req.clone(), single: true, ..Cx::default() };
        if f.name == "entry" && !self.pure_ && f.cv == 2 {
            self.handle(&mut cx);
        }
        let r = self.body(&cx, &T::I64, 6);
        self.line(&format!("tribute_control.return {r}"));
        self.s.push_str("  }\n");
        self.fs.push(f);
    }
    pub fn arg(&mut self, t: Ty) -> i128 {
        match t {
            Ty::I1 => self.r.below(2) as i128,
            Ty::I32 => *self.r.pick(&[0i128, 1, 2, 3, -1]),
            _ => *self.r.pick(&[0i128, 1, -1, 2, 3, 7, 100, i64::MIN as i128]),
        }
    }
}
