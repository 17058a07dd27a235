//! Programs of the control language, right and wrong: what the verifier says of each.
use crate::Args;
use crate::eff::declarations;
use crate::equiv::{parse, quiet};
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeSet, HashMap};
use std::io::Write as _;
use tribute_ir::dialect::tribute_control::{OperationDeclaration, validate};
use trunk_ir::context::{BlockArgData, BlockData, IrContext, OperationDataBuilder, RegionData};
use trunk_ir::refs::{BlockRef, OpRef, RegionRef, TypeRef, ValueRef};
use trunk_ir::rewrite::Module;
use trunk_ir::types::{Attribute, TypeDataBuilder};
use trunk_ir::{IrMapping, Symbol};

const CC: &str = "tribute.calling_convention";
const CB: &str = "tribute_control.callable(core.i32) {tribute.calling_convention = 2}";
const TOK: &str = "tribute_control.resume_token(core.i32, core.i32)";

/// Programs whose handler clauses hand their resume token about.
struct T {
    r: Rng,
    n: usize,
    fuel: i32,
}

#[derive(Clone, Default)]
struct Scope {
    ints: Vec<String>,
    toks: Vec<String>,
    fns: Vec<String>,
    /// lambdas that hold a token, or hold one that does
    cars: Vec<String>,
}

impl Scope {
    fn has(&self, x: &String) -> bool {
        self.ints.contains(x) || self.toks.contains(x) || self.fns.contains(x) || self.cars.contains(x)
    }
}

impl T {
    fn name(&mut self) -> String {
        self.n += 1;
        format!("%v{}", self.n)
    }
    /// What may be used once is mostly used once.
    fn spend(&mut self, s: &mut Scope, used: &BTreeSet<String>) {
        if !self.r.chance(1, 5) {
            s.toks.retain(|x| !used.contains(x));
            s.cars.retain(|x| !used.contains(x));
        }
    }
    fn func(&mut self, s: &Scope) -> Option<String> {
        if !s.cars.is_empty() && (s.fns.is_empty() || self.r.chance(3, 4)) {
            return Some(self.r.pick(&s.cars).clone());
        }
        (!s.fns.is_empty()).then(|| self.r.pick(&s.fns).clone())
    }
    fn int(&mut self, s: &Scope) -> String {
        s.ints[self.r.below(s.ints.len())].clone()
    }
    /// Statements; returns the names used that are not defined here.
    fn stmts(&mut self, s: &mut Scope, ind: usize, in_clause: bool, out: &mut String) -> BTreeSet<String> {
        let pad = " ".repeat(ind);
        let all = s.clone();
        let mut used = BTreeSet::new();
        let mut own = BTreeSet::new();
        for _ in 0..self.r.range(1, 4) {
            self.fuel -= 1;
            if self.fuel < 0 {
                break;
            }
            let busy = in_clause && (!s.toks.is_empty() || !s.cars.is_empty()) && !self.r.chance(1, 8);
            let pick = if busy { *self.r.pick(&[0, 0, 4, 4, 4, 4, 7, 7, 10, 11, 11, 11, 20, 20, 21, 22]) } else { self.r.below(16) };
            match pick {
                0..=3 if !s.toks.is_empty() => {
                    let (v, t, a) = (self.name(), self.r.pick(&s.toks).clone(), self.int(s));
                    *out += &format!("{pad}{v} = tribute_control.resume {t}, {a} : core.i32\n");
                    used.extend([t.clone(), a]);
                    self.spend(s, &[t].into());
                    own.insert(v.clone());
                    s.ints.push(v);
                }
                4..=6 => {
                    let v = self.name();
                    let mut inner = s.clone();
                    let mut body = String::new();
                    let mut u = self.stmts(&mut inner, ind + 2, in_clause, &mut body);
                    let ret = self.int(&inner);
                    if s.ints.contains(&ret) {
                        u.insert(ret.clone());
                    }
                    let mut caps: Vec<String> = u.iter().cloned().collect();
                    if self.r.chance(1, 25) && !caps.is_empty() {
                        let i = self.r.below(caps.len());
                        if self.r.chance(1, 2) {
                            caps.remove(i);
                        } else {
                            let c = caps[i].clone();
                            caps.push(c);
                        }
                    } else if self.r.chance(1, 25) {
                        let c = self.int(s);
                        if !caps.contains(&c) {
                            caps.push(c);
                        }
                    }
                    *out += &format!("{pad}{v} = tribute_control.lambda() -> core.i32 convention(cps) captures [{}] {{\n{body}{pad}  tribute_control.return {ret}\n{pad}}}\n", caps.join(", "));
                    let holds = u.iter().any(|x| s.toks.contains(x) || s.cars.contains(x));
                    self.spend(s, &u);
                    used.extend(u);
                    used.extend(caps);
                    own.insert(v.clone());
                    if holds {
                        s.cars.push(v);
                    } else {
                        s.fns.push(v);
                    }
                }
                7..=9 => {
                    let Some(f) = self.func(s) else { continue };
                    let v = self.name();
                    self.spend(s, &[f.clone()].into());
                    *out += &format!("{pad}{v} = tribute_control.call_indirect {f} : core.i32\n");
                    used.insert(f);
                    own.insert(v.clone());
                    s.ints.push(v);
                }
                10 => {
                    let Some(f) = self.func(s) else { continue };
                    let (v, a) = (self.name(), self.int(s));
                    let to = if s.cars.contains(&f) { *self.r.pick(&["f", "f", "f", "f", "f", "g"]) } else { *self.r.pick(&["f", "g"]) };
                    self.spend(s, &[f.clone()].into());
                    *out += &format!("{pad}{v} = tribute_control.call {a}, {f} {{callee = @{to}}} : core.i32\n");
                    used.extend([f, a]);
                    own.insert(v.clone());
                    s.ints.push(v);
                }
                11 | 12 => {
                    let (v, c) = (self.name(), self.name());
                    *out += &format!("{pad}{c} = arith.const {{value = true}} : core.i1\n");
                    own.insert(c.clone());
                    let mut arms = vec![];
                    let mut gone = BTreeSet::new();
                    for _ in 0..2 {
                        let mut inner = s.clone();
                        let mut body = String::new();
                        let u = self.stmts(&mut inner, ind + 2, in_clause, &mut body);
                        gone.extend(u.clone());
                        used.extend(u);
                        let ret = self.int(&inner);
                        used.insert(ret.clone());
                        arms.push(format!("{{\n{body}{pad}  scf.yield {ret}\n{pad}}}"));
                    }
                    // names of the arms do not leak: they are never in scope outside
                    self.spend(s, &gone);
                    *out += &format!("{pad}{v} = scf.if {c} : core.i32 {} {}\n", arms[0], arms[1]);
                    own.insert(v.clone());
                    s.ints.push(v);
                }
                20 if !s.cars.is_empty() => {
                    // one carrier, two uses: one after the other or on different branches
                    let (f, a) = (self.r.pick(&s.cars).clone(), self.int(s));
                    let us: Vec<(String, String)> = (0..2).map(|_| self.use_of(&f, &a, ind + 2, 0)).collect();
                    let (x, y) = (self.name(), self.name());
                    match self.r.below(4) {
                        0 => *out += &format!("{}{}", us[0].1, us[1].1),
                        1 => *out += &format!("{pad}{x} = arith.const {{value = true}} : core.i1\n{pad}{y} = scf.if {x} : core.i32 {{\n{}{pad}  scf.yield {a}\n{pad}}} {{\n{}{pad}  scf.yield {a}\n{pad}}}\n", us[0].1, us[1].1),
                        2 => *out += &format!("{pad}{x} = arith.const {{value = true}} : core.i1\n{pad}{y} = scf.if {x} : core.i32 {{\n{}{pad}  scf.yield {a}\n{pad}}} {{\n{pad}  scf.yield {a}\n{pad}}}\n{}", us[0].1, us[1].1),
                        _ => *out += &format!("{pad}{x} = arith.const {{value = true}} : core.i1\n{}{pad}{y} = scf.if {x} : core.i32 {{\n{pad}  scf.yield {a}\n{pad}}} {{\n{}{pad}  scf.yield {a}\n{pad}}}\n", us[0].1, us[1].1),
                    }
                    used.extend([f.clone(), a]);
                    s.cars.retain(|c| *c != f);
                }
                21 => {
                    // handed to a function value
                    let Some(f) = self.func(s) else { continue };
                    let (h, p, q, v) = (self.name(), self.name(), self.name(), self.name());
                    *out += &format!("{pad}{h} = tribute_control.lambda({p}: {CB}) -> core.i32 convention(cps) captures [] {{\n{pad}  {q} = tribute_control.call_indirect {p} : core.i32\n{pad}  tribute_control.return {q}\n{pad}}}\n{pad}{v} = tribute_control.call_indirect {h}, {f} : core.i32\n");
                    self.spend(s, &[f.clone()].into());
                    used.insert(f);
                    own.extend([h, v.clone()]);
                    s.ints.push(v);
                }
                22 if !s.cars.is_empty() => {
                    // a chain of lambdas, each holding the one before
                    let (mut f, a) = (self.r.pick(&s.cars).clone(), self.int(s));
                    used.extend([f.clone(), a.clone()]);
                    s.cars.retain(|c| *c != f);
                    for _ in 0..self.r.range(1, 4) {
                        let (l, q) = (self.name(), self.name());
                        *out += &format!("{pad}{l} = tribute_control.lambda() -> core.i32 convention(cps) captures [{f}] {{\n{pad}  {q} = tribute_control.call_indirect {f} : core.i32\n{pad}  tribute_control.return {q}\n{pad}}}\n");
                        own.insert(l.clone());
                        f = l;
                    }
                    for _ in 0..*self.r.pick(&[0, 1, 1, 1, 2]) {
                        *out += &self.use_of(&f, &a, ind, 0).1;
                    }
                }
                13 if self.fuel > 4 => {
                    let v = self.name();
                    let mut h = String::new();
                    let mut outer = s.clone();
                    if !self.r.chance(1, 6) {
                        outer.toks.clear();
                        outer.cars.clear();
                    }
                    let u = self.handle(&v, &outer, ind, &mut h);
                    *out += &h;
                    used.extend(u);
                    own.insert(v.clone());
                    s.ints.push(v);
                }
                14 => {
                    let (v, a) = (self.name(), self.int(s));
                    *out += &format!("{pad}{v} = tribute_control.perform {a} {{ability_ref = core.ability_ref() {{name = @State}}, op_name = @get, operation_kind = @op}} : core.i32\n");
                    used.insert(a);
                    own.insert(v.clone());
                    s.ints.push(v);
                }
                _ => {
                    let v = self.name();
                    *out += &format!("{pad}{v} = arith.const {{value = {}}} : core.i32\n", self.r.below(9));
                    own.insert(v.clone());
                    s.ints.push(v);
                }
            }
        }
        used.retain(|x| !own.contains(x) && all.has(x));
        used
    }
    /// A use of a function value: called, handed on, or captured by a lambda that uses it.
    fn use_of(&mut self, f: &str, a: &str, ind: usize, depth: usize) -> (String, String) {
        let pad = " ".repeat(ind);
        let v = self.name();
        let text = match self.r.below(if depth < 2 { 9 } else { 5 }) {
            0 | 1 => format!("{pad}{v} = tribute_control.call_indirect {f} : core.i32\n"),
            2 | 3 => format!("{pad}{v} = tribute_control.call {a}, {f} {{callee = @f}} : core.i32\n"),
            4 => format!("{pad}{v} = tribute_control.call {a}, {f} {{callee = @{}}} : core.i32\n", if self.r.chance(1, 3) { "g" } else { "f" }),
            _ => {
                let (w, body) = self.use_of(f, a, ind + 2, depth + 1);
                let lambda = body.contains("lambda");
                let caps = if lambda || body.contains(&format!("{a},")) || body.contains(&format!("return {a}\n")) { format!("{a}, {f}") } else { f.to_string() };
                let ret = if lambda { a.to_string() } else { w };
                format!("{pad}{v} = tribute_control.lambda() -> core.i32 convention(cps) captures [{caps}] {{\n{body}{pad}  tribute_control.return {ret}\n{pad}}}\n")
            }
        };
        (v, text)
    }
    fn handle(&mut self, v: &str, s: &Scope, ind: usize, out: &mut String) -> BTreeSet<String> {
        let pad = " ".repeat(ind);
        let mut used = BTreeSet::new();
        let mut inner = s.clone();
        let mut body = String::new();
        let fuel = std::mem::replace(&mut self.fuel, 2);
        used.extend(self.stmts(&mut inner, ind + 2, false, &mut body));
        self.fuel = fuel;
        let y = self.int(&inner);
        used.insert(y.clone());
        let c = self.name();
        *out += &format!("{pad}{v} = tribute_control.handle : core.i32 {{\n{body}{pad}  tribute_control.yield {y}\n{pad}}} {{\n{pad}  ^completion({c}: core.i32):\n{pad}    tribute_control.yield {c}\n{pad}}} {{\n");
        let mut kinds = vec![0];
        if self.r.chance(1, 3) {
            kinds.push(1);
        }
        if self.r.chance(1, 3) {
            kinds.push(2);
        }
        if self.r.chance(1, 60) {
            let k = self.r.below(3);
            kinds.push(k);
        }
        for k in kinds {
            let (a, t) = (self.name(), self.name());
            let mut inner = s.clone();
            inner.ints.push(a.clone());
            if k == 0 {
                inner.toks.push(t.clone());
            }
            let mut body = String::new();
            let u = self.stmts(&mut inner, ind + 6, true, &mut body);
            used.extend(u.into_iter().filter(|x| *x != a && *x != t));
            let y = if k == 0 && self.r.chance(1, 80) { t.clone() } else { self.int(&inner) };
            if s.ints.contains(&y) {
                used.insert(y.clone());
            }
            let (name, kind, res, args) = match k {
                0 => ("get", "op", "core.i32", format!("{a}: core.i32, {t}: {TOK}")),
                1 => ("tell", "fn", "core.i32", format!("{a}: core.i32")),
                _ => ("stop", "op", "core.never", format!("{a}: core.i32")),
            };
            *out += &format!("{pad}  tribute_control.handler {{ability_ref = core.ability_ref() {{name = @State}}, kind = @{kind}, op_name = @{name}, operation_result_type = {res}}} {{\n{pad}    ^clause({args}):\n{body}{pad}      tribute_control.yield {y}\n{pad}  }}\n");
        }
        *out += &format!("{pad}}}\n");
        used.retain(|x| s.has(x));
        used
    }
    fn module(&mut self) -> String {
        let mut out = "core.module @test {\n".to_string();
        for (i, f) in ["f", "g"].iter().enumerate() {
            self.fuel = if i == 0 { 14 } else { 2 };
            let (a, k) = (self.name(), self.name());
            out += &format!("  tribute_control.func @{f}({a}: core.i32, {k}: {CB}) -> core.i32 convention(cps) {{\n");
            let mut s = Scope { ints: vec![a], toks: vec![], fns: vec![k], cars: vec![] };
            if i == 0 {
                let v = self.name();
                let mut h = String::new();
                self.handle(&v, &s, 4, &mut h);
                out += &h;
                s.ints.push(v);
            }
            self.stmts(&mut s, 4, false, &mut out);
            let y = self.int(&s);
            out += &format!("    tribute_control.return {y}\n  }}\n");
        }
        if self.r.chance(1, 3) {
            let r = self.name();
            let cc = self.r.below(3);
            out += &format!("  tribute_control.func @h() -> core.i32 convention({}) {{\n    {r} = arith.const {{value = 1}} : core.i32\n    tribute_control.return {r}\n  }}\n", ["direct", "evidence_direct", "cps"][cc]);
            let (v, r) = (self.name(), self.name());
            out += &format!("  tribute_control.func @user() -> core.i32 convention(cps) {{\n    {v} = tribute_control.func_ref {{func_ref = @h}} : tribute_control.callable(core.i32) {{tribute.calling_convention = {}}}\n    {r} = tribute_control.call_indirect {v} : core.i32\n    tribute_control.return {r}\n  }}\n", if self.r.chance(1, 4) { self.r.below(3) } else { self.r.range(cc, 2) });
        }
        if self.r.chance(1, 3) {
            let (r, v) = (self.name(), self.name());
            let to = if self.r.chance(1, 6) { "f" } else { "g" };
            out += &format!("  core.module @inner {{\n  tribute_control.func @g() -> core.i32 convention(direct) {{\n    {r} = arith.const {{value = 1}} : core.i32\n    tribute_control.return {r}\n  }}\n  tribute_control.func @q() -> core.i32 convention(direct) {{\n    {v} = tribute_control.call {{callee = @{to}}} : core.i32\n    tribute_control.return {v}\n  }}\n  }}\n");
        }
        if self.r.chance(1, 3) {
            // a function that returns a function
            let (k, a, l, p, q) = (self.name(), self.name(), self.name(), self.name(), self.name());
            let y = self.r.pick(&[&k, &k, &k, &a, &l]).to_string();
            let z = self.r.pick(&[&p, &p, &q]).to_string();
            out += &format!("  tribute_control.func @maker({a}: core.i32, {k}: {CB}) -> {CB} convention(cps) {{\n    {l} = tribute_control.lambda({p}: {CB}, {q}: core.i32) -> {CB} convention(cps) captures [] {{\n      tribute_control.return {z}\n    }}\n    tribute_control.return {y}\n  }}\n");
        }
        if self.r.chance(1, 3) {
            out += "  tribute_control.func @extern(%p: core.i64) -> core.nil convention(direct)\n";
        }
        out + "}\n"
    }
}

#[derive(Default)]
struct Tables {
    ops: Vec<OpRef>,
    regs: Vec<RegionRef>,
    blks: Vec<BlockRef>,
    vals: Vec<ValueRef>,
}

fn tables(ctx: &IrContext, op: OpRef, t: &mut Tables) {
    t.ops.push(op);
    t.vals.extend(ctx.op_results(op));
    for &r in ctx.op(op).regions.iter() {
        t.regs.push(r);
        for &b in ctx.region(r).blocks.iter() {
            t.blks.push(b);
            t.vals.extend(ctx.block_args(b));
            for &o in ctx.block(b).ops.iter() {
                tables(ctx, o, t);
            }
        }
    }
}

fn intern(ctx: &mut IrContext, d: &str, n: &str, ps: Vec<TypeRef>) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(Symbol::from_dynamic(d), Symbol::from_dynamic(n)).params(ps).build())
}

fn callable(ctx: &mut IrContext, ps: Vec<TypeRef>, cc: Option<Attribute>) -> TypeRef {
    let mut b = TypeDataBuilder::new(Symbol::new("tribute_control"), Symbol::new("callable")).params(ps);
    if let Some(a) = cc {
        b = b.attr(Symbol::new(CC), a);
    }
    ctx.types.intern(b.build())
}

fn some_type(ctx: &mut IrContext, r: &mut Rng) -> TypeRef {
    let i32t = intern(ctx, "core", "i32", vec![]);
    let i64t = intern(ctx, "core", "i64", vec![]);
    let cc = Attribute::Int(r.below(3) as i128);
    match r.below(17) {
        0 | 1 => i32t,
        2 => i64t,
        3 => intern(ctx, "core", "i1", vec![]),
        4 => intern(ctx, "core", "never", vec![]),
        5 | 6 => intern(ctx, "tribute_control", "resume_token", vec![i32t, i32t]),
        7 => intern(ctx, "tribute_control", "resume_token", vec![i64t, i32t]),
        8 => intern(ctx, "tribute_control", "resume_token", vec![i32t, i64t]),
        9 | 10 => callable(ctx, vec![i32t], Some(cc)),
        11 => callable(ctx, vec![i32t, i32t], Some(cc)),
        12 => callable(ctx, vec![i64t], Some(cc)),
        13 => {
            let d = *r.pick(&["type", "tribute"]);
            let n = *r.pick(&["var", "infer", "unresolved"]);
            intern(ctx, d, n, vec![])
        }
        14 => {
            let d = *r.pick(&["type", "tribute", "core"]);
            let n = *r.pick(&["var", "infer", "unresolved"]);
            let u = intern(ctx, d, n, vec![]);
            let p = intern(ctx, "core", "tuple", vec![i32t, u]);
            if r.chance(1, 2) { p } else { intern(ctx, "core", "array", vec![p]) }
        }
        15 => odd_type(ctx, r),
        _ => intern(ctx, "core", "func", vec![i32t, i32t]),
    }
}

/// Types of the control dialect that are wrong in themselves, and near misses.
fn odd_type(ctx: &mut IrContext, r: &mut Rng) -> TypeRef {
    let i32t = intern(ctx, "core", "i32", vec![]);
    let cc = Some(Attribute::Int(r.below(3) as i128));
    let part = match r.below(12) {
        0 => intern(ctx, "core", "func", vec![i32t]),
        1 => {
            let f = intern(ctx, "core", "func", vec![i32t]);
            intern(ctx, "closure", "closure", vec![f])
        }
        2 => intern(ctx, "closure", "closure", vec![]),
        3 => intern(ctx, "tribute_control", "resume_token", vec![i32t, i32t]),
        4 => intern(ctx, "type", "var", vec![]),
        5 => intern(ctx, "tribute", "infer", vec![]),
        6 => intern(ctx, "tribute", "unresolved", vec![]),
        7 => intern(ctx, "type", "unresolved", vec![]),
        8 => callable(ctx, vec![i32t, i32t], Some(Attribute::Int(1))),
        9 => intern(ctx, "core", "var", vec![]),
        10 => intern(ctx, "closure", "func", vec![]),
        _ => intern(ctx, "core", "never", vec![]),
    };
    let part = match r.below(4) {
        0 => intern(ctx, "core", "tuple", vec![i32t, part]),
        1 => {
            let p = intern(ctx, "core", "tuple", vec![part, i32t]);
            intern(ctx, "core", "array", vec![p])
        }
        _ => part,
    };
    match r.below(14) {
        0 => callable(ctx, vec![], cc),
        1 => callable(ctx, vec![i32t], None),
        2 => callable(ctx, vec![i32t], Some(Attribute::Int(3))),
        3 => callable(ctx, vec![i32t], Some(Attribute::Int(*r.pick(&[-1, 4, 256, 1 << 64])))),
        4 => callable(ctx, vec![i32t], Some(Attribute::Symbol(Symbol::new("cps")))),
        5 => callable(ctx, vec![part], cc),
        6 | 7 => callable(ctx, vec![i32t, part], cc),
        8 => intern(ctx, "tribute_control", "resume_token", vec![i32t]),
        9 => intern(ctx, "tribute_control", "resume_token", vec![i32t, i32t, i32t]),
        10 => intern(ctx, "tribute_control", "resume_token", vec![part, i32t]),
        11 => intern(ctx, "tribute_control", "resume_token", vec![i32t, part]),
        12 => intern(ctx, "tribute_control", "bogus", vec![]),
        _ => part,
    }
}

fn some_attr(ctx: &mut IrContext, r: &mut Rng) -> Attribute {
    match r.below(10) {
        0..=5 => Attribute::Symbol(Symbol::new(*r.pick(&["fn", "op", "get", "tell", "stop", "f", "g", "h", "nowhere", "macro"]))),
        6 | 7 => Attribute::Type(some_type(ctx, r)),
        8 => {
            let p = intern(ctx, "core", "i32", vec![]);
            let name = *r.pick(&["State", "Other"]);
            let mut b = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("ability_ref"));
            if r.chance(1, 3) {
                b = b.param(p);
            }
            Attribute::Type(ctx.types.intern(b.attr(Symbol::new("name"), Attribute::Symbol(Symbol::from_dynamic(name))).build()))
        }
        _ => Attribute::Int(r.below(4) as i128),
    }
}

/// One edit of a module. Nothing is ever left hanging: every operation stays in the module.
fn mutate(ctx: &mut IrContext, m: Module, ds: &mut Vec<OperationDeclaration>, r: &mut Rng) -> String {
    let mut t = Tables::default();
    tables(ctx, m.op(), &mut t);
    let ours: Vec<OpRef> = t.ops[1..].iter().copied().filter(|&o| ctx.op(o).dialect == Symbol::new("tribute_control")).collect();
    if ours.is_empty() || t.vals.is_empty() {
        return String::new();
    }
    let op = if r.chance(1, 12) { *r.pick(&t.ops[1..]) } else { *r.pick(&ours) };
    let loc = ctx.op(op).location;
    let no = ctx.op_operands(op).len();
    let val = {
        let same: Vec<ValueRef> = if no > 0 {
            let ty = ctx.value_ty(ctx.op_operands(op)[r.below(no)]);
            t.vals.iter().copied().filter(|&v| ctx.value_ty(v) == ty).collect()
        } else {
            vec![]
        };
        if same.is_empty() || r.chance(1, 2) { *r.pick(&t.vals) } else { *r.pick(&same) }
    };
    let kind = r.below(29);
    match kind {
        0..=2 if no > 0 => {
            let i = r.below(no) as u32;
            ctx.set_op_operand(op, i, val);
        }
        3 if no > 0 => {
            let i = r.below(no) as u32;
            ctx.remove_op_operand(op, i);
        }
        4 => ctx.push_op_operand(op, val),
        5 if !ctx.op_results(op).is_empty() => {
            let ty = some_type(ctx, r);
            ctx.set_op_result_type(op, 0, ty);
        }
        6 | 7 => {
            let with: Vec<BlockRef> = t.blks.iter().copied().filter(|&b| !ctx.block_args(b).is_empty()).collect();
            if with.is_empty() {
                return String::new();
            }
            let b = *r.pick(&with);
            let i = r.below(ctx.block_args(b).len()) as u32;
            let ty = some_type(ctx, r);
            ctx.set_block_arg_type(b, i, ty);
        }
        8 => {
            let b = *r.pick(&t.blks[1..]);
            let ty = some_type(ctx, r);
            let arg = BlockArgData { ty, attrs: Default::default() };
            if r.chance(1, 2) {
                ctx.add_block_arg(b, arg);
            } else {
                ctx.prepend_block_arg(b, arg);
            }
        }
        9 | 10 => {
            let with: Vec<OpRef> = ours.iter().copied().filter(|&o| ctx.op(o).attributes.keys().next().is_some()).collect();
            let op = *r.pick(&with);
            let keys: Vec<Symbol> = ctx.op(op).attributes.keys().copied().collect();
            let k = *r.pick(&keys);
            let v = some_attr(ctx, r);
            if r.chance(1, 4) {
                ctx.op_mut(op).attributes.remove(&k);
            } else {
                ctx.op_mut(op).attributes.insert(k, v);
            }
        }
        11 => {
            let k = *r.pick(&[CC, "note", "callee", "type"]);
            let v = some_attr(ctx, r);
            ctx.op_mut(op).attributes.insert(Symbol::from_dynamic(k), v);
        }
        12 => {
            let ifs: Vec<OpRef> = t.ops.iter().copied().filter(|&o| ctx.op(o).name == Symbol::new("if")).collect();
            if !ifs.is_empty() && r.chance(1, 4) {
                let op = *r.pick(&ifs);
                ctx.op_mut(op).name = Symbol::new("switch");
                return format!("edit {kind}");
            }
            let n = *r.pick(&["yield", "return", "resume", "call", "handle", "handler", "lambda", "func", "call_indirect", "bogus", "func_ref", "perform"]);
            ctx.op_mut(op).name = Symbol::from_dynamic(n);
        }
        13..=15 => {
            // a copy, here or elsewhere
            let mut map = IrMapping::new();
            let new = ctx.clone_op(op, &mut map);
            place(ctx, &t, new, r);
        }
        16 | 17 => {
            // moved elsewhere, but not into itself
            let mut inner = Tables::default();
            tables(ctx, op, &mut inner);
            let bs: Vec<BlockRef> = t.blks.iter().copied().filter(|b| !inner.blks.contains(b)).collect();
            ctx.detach_op(op);
            let t = Tables { blks: bs, ..Default::default() };
            place(ctx, &t, op, r);
        }
        18 => {
            // one region more
            let b = ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None });
            let mut blocks = vec![];
            if r.chance(1, 2) {
                blocks.push(b);
            }
            let g = ctx.create_region(RegionData { location: loc, blocks: blocks.into_iter().collect(), parent_op: None });
            ctx.op_mut(op).regions.push(g);
            ctx.region_mut(g).parent_op = Some(op);
        }
        19 => {
            // a region taken away: it goes to an operation of its own
            let Some(&g) = ctx.op(op).regions.last() else { return String::new() };
            ctx.detach_region(g);
            let data = OperationDataBuilder::new(loc, Symbol::new("test"), Symbol::new("holder")).region(g).build(ctx);
            let new = ctx.create_op(data);
            let body = m.body(ctx).unwrap();
            let b = ctx.region(body).blocks[0];
            ctx.push_op(b, new);
        }
        20 => {
            // one block more
            let g = *r.pick(&t.regs[1..]);
            let b = ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None });
            ctx.block_mut(b).parent_region = Some(g);
            ctx.region_mut(g).blocks.push(b);
        }
        21 => {
            // two regions change places
            let n = ctx.op(op).regions.len();
            if n < 2 {
                return String::new();
            }
            let i = r.below(n - 1);
            ctx.op_mut(op).regions.swap(i, i + 1);
        }
        22 => {
            // more or fewer results
            let data = ctx.op(op);
            let (d, n, attrs) = (data.dialect, data.name, data.attributes.clone());
            let regions: Vec<RegionRef> = data.regions.iter().copied().collect();
            let operands = ctx.op_operands(op).to_vec();
            let mut rts = ctx.op_result_types(op).to_vec();
            let olds = ctx.op_results(op).to_vec();
            if olds.iter().any(|&v| ctx.has_uses(v)) || rts.is_empty() || r.chance(1, 2) {
                let ty = some_type(ctx, r);
                rts.push(ty);
            } else {
                rts.pop();
            }
            let Some(b) = ctx.op(op).parent_block else { return String::new() };
            for &g in &regions {
                ctx.detach_region(g);
            }
            let mut bd = OperationDataBuilder::new(loc, d, n).operands(operands).results(rts);
            for (k, v) in attrs.iter() {
                bd = bd.attr(*k, v.clone());
            }
            for g in regions {
                bd = bd.region(g);
            }
            let data = bd.build(ctx);
            let new = ctx.create_op(data);
            ctx.insert_op_before(b, op, new);
            let news = ctx.op_results(new).to_vec();
            for (o, n) in olds.into_iter().zip(news) {
                ctx.replace_all_uses(o, n);
            }
            ctx.detach_op(op);
            ctx.remove_op(op);
        }
        23 => {
            odd_type(ctx, r);
        }
        24 if !ds.is_empty() => {
            let i = r.below(ds.len());
            match r.below(5) {
                0 => {
                    ds.remove(i);
                }
                1 => {
                    let d = ds[i].clone();
                    ds.push(d);
                }
                2 => ds[i].kind = Symbol::new(*r.pick(&["fn", "op"])),
                3 => {
                    let ty = some_type(ctx, r);
                    if r.chance(1, 2) || ds[i].parameter_types.is_empty() {
                        ds[i].parameter_types.push(ty);
                    } else {
                        ds[i].parameter_types[0] = ty;
                    }
                }
                _ => ds[i].result_type = some_type(ctx, r),
            }
        }
        25 => {
            // a function of its own module, or a module around nothing
            let funcs: Vec<OpRef> = ours.iter().copied().filter(|&o| ctx.op(o).name == Symbol::new("func")).collect();
            let Some(&f) = funcs.get(r.below(funcs.len())) else { return String::new() };
            let Some(home) = ctx.op(f).parent_block else { return String::new() };
            let b = ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None });
            let g = ctx.create_region(RegionData { location: loc, blocks: [b].into_iter().collect(), parent_op: None });
            let data = OperationDataBuilder::new(loc, Symbol::new("core"), Symbol::new("module"))
                .attr(Symbol::new("sym_name"), Attribute::Symbol(Symbol::new("nested")))
                .region(g)
                .build(ctx);
            let new = ctx.create_op(data);
            ctx.insert_op_before(home, f, new);
            ctx.detach_op(f);
            ctx.push_op(b, f);
        }
        26 => {
            // a clause with one parameter more or of another type, and declared so
            let hs: Vec<OpRef> = ours.iter().copied().filter(|&o| ctx.op(o).name == Symbol::new("handler")).collect();
            let Some(&h) = hs.get(r.below(hs.len().max(1))) else { return String::new() };
            let Some(&b) = ctx.op(h).regions.first().and_then(|&g| ctx.region(g).blocks.first()) else { return String::new() };
            let ty = if r.chance(1, 2) { some_type(ctx, r) } else { token(ctx) };
            ctx.prepend_block_arg(b, BlockArgData { ty, attrs: Default::default() });
            let (ab, n) = (ctx.op(h).attributes.get_type("ability_ref"), ctx.op(h).attributes.get_symbol("op_name"));
            for d in ds.iter_mut() {
                if Some(d.ability_ref) == ab && Some(d.op_name) == n {
                    d.parameter_types.insert(0, ty);
                }
            }
        }
        27 | 28 => {
            // one clause twice, perhaps not quite the same
            let hs: Vec<OpRef> = ours.iter().copied().filter(|&o| ctx.op(o).name == Symbol::new("handler")).collect();
            let Some(&h) = hs.get(r.below(hs.len().max(1))) else { return String::new() };
            let Some(b) = ctx.op(h).parent_block else { return String::new() };
            let mut map = IrMapping::new();
            let new = ctx.clone_op(h, &mut map);
            ctx.insert_op_before(b, h, new);
            let which = if r.chance(2, 3) { new } else { h };
            match r.below(4) {
                0 => {
                    let k = *r.pick(&["fn", "op"]);
                    ctx.op_mut(which).attributes.insert(Symbol::new("kind"), Attribute::Symbol(Symbol::from_dynamic(k)));
                }
                1 => {
                    let ty = some_type(ctx, r);
                    ctx.op_mut(which).attributes.insert(Symbol::new("operation_result_type"), Attribute::Type(ty));
                }
                2 => {
                    let k = *r.pick(&["get", "tell", "stop", "other"]);
                    ctx.op_mut(which).attributes.insert(Symbol::new("op_name"), Attribute::Symbol(Symbol::from_dynamic(k)));
                }
                _ => {}
            }
        }
        _ => return String::new(),
    }
    format!("edit {kind}")
}

fn token(ctx: &mut IrContext) -> TypeRef {
    let i32t = intern(ctx, "core", "i32", vec![]);
    intern(ctx, "tribute_control", "resume_token", vec![i32t, i32t])
}

fn place(ctx: &mut IrContext, t: &Tables, op: OpRef, r: &mut Rng) {
    let b = *r.pick(&t.blks);
    let at: Vec<OpRef> = ctx.block(b).ops.iter().copied().collect();
    if at.is_empty() || r.chance(1, 6) {
        ctx.push_op(b, op);
    } else {
        let i = r.below(at.len());
        ctx.insert_op_before(b, at[i], op);
    }
}

fn dump(ctx: &IrContext, m: Module, ds: &[OperationDeclaration], t: &Tables) -> Value {
    let mut tn: HashMap<TypeRef, usize> = HashMap::new();
    let mut all = vec![];
    for (i, (ty, _)) in ctx.types.iter().enumerate() {
        tn.insert(ty, i + 1);
        all.push(ty);
    }
    let types: Vec<Value> = all
        .iter()
        .map(|&ty| {
            let d = ctx.types.get(ty);
            json!({"d": d.dialect.to_string(), "n": d.name.to_string(), "p": d.params.iter().map(|p| tn[p]).collect::<Vec<_>>(),
                "cc": match d.attrs.get(CC) { Some(Attribute::Int(c)) => (*c).clamp(-9, 98) as i64, _ => 99 }})
        })
        .collect();
    fn num<X: std::hash::Hash + Eq + Copy>(xs: &[X]) -> HashMap<X, usize> {
        xs.iter().enumerate().map(|(i, &x)| (x, i + 1)).collect()
    }
    let (on, rn, bn, vn) = (num(&t.ops), num(&t.regs), num(&t.blks), num(&t.vals));
    let ops: Vec<Value> = t
        .ops
        .iter()
        .map(|&o| {
            let d = ctx.op(o);
            let attrs: Vec<Value> = d
                .attributes
                .iter()
                .map(|(k, v)| {
                    let (t, s, y) = match v {
                        Attribute::Symbol(s) => ("sym", s.to_string(), 0),
                        Attribute::Type(y) => ("type", String::new(), tn[y]),
                        _ => ("other", String::new(), 0),
                    };
                    json!({"k": k.to_string(), "t": t, "s": s, "y": y})
                })
                .collect();
            let b = d.parent_block.filter(|_| o != m.op());
            json!({"d": d.dialect.to_string(), "n": d.name.to_string(),
                "o": ctx.op_operands(o).iter().map(|v| vn[v]).collect::<Vec<_>>(),
                "r": ctx.op_results(o).iter().map(|v| vn[v]).collect::<Vec<_>>(),
                "rt": ctx.op_result_types(o).iter().map(|t| tn[t]).collect::<Vec<_>>(),
                "g": d.regions.iter().map(|g| rn[g]).collect::<Vec<_>>(),
                "a": attrs, "b": b.map(|b| bn[&b]).unwrap_or(0)})
        })
        .collect();
    let mut rop = vec![0; t.regs.len()];
    for &o in &t.ops {
        for g in ctx.op(o).regions.iter() {
            rop[rn[g] - 1] = on[&o];
        }
    }
    let regs: Vec<Value> = t.regs.iter().enumerate().map(|(i, &g)| json!({"op": rop[i], "b": ctx.region(g).blocks.iter().map(|b| bn[b]).collect::<Vec<_>>()})).collect();
    let mut breg = vec![0; t.blks.len()];
    for &g in &t.regs {
        for b in ctx.region(g).blocks.iter() {
            breg[bn[b] - 1] = rn[&g];
        }
    }
    let blks: Vec<Value> = t.blks.iter().enumerate().map(|(i, &b)| json!({"g": breg[i], "a": ctx.block_args(b).iter().map(|v| vn[v]).collect::<Vec<_>>(), "o": ctx.block(b).ops.iter().map(|o| on[o]).collect::<Vec<_>>()})).collect();
    // the region a value is defined in
    let mut vreg = vec![0; t.vals.len()];
    for &b in &t.blks {
        for v in ctx.block_args(b) {
            vreg[vn[v] - 1] = breg[bn[&b] - 1];
        }
        for o in ctx.block(b).ops.iter() {
            for v in ctx.op_results(*o) {
                vreg[vn[v] - 1] = breg[bn[&b] - 1];
            }
        }
    }
    let vals: Vec<Value> = t.vals.iter().enumerate().map(|(i, &v)| json!({"t": tn[&ctx.value_ty(v)], "g": vreg[i]})).collect();
    let decls: Vec<Value> = ds
        .iter()
        .map(|d| json!({"ab": tn[&d.ability_ref], "n": d.op_name.to_string(), "k": d.kind.to_string(), "p": d.parameter_types.iter().map(|p| tn[p]).collect::<Vec<_>>(), "r": tn[&d.result_type]}))
        .collect();
    json!({"types": types, "ops": ops, "regs": regs, "blks": blks, "vals": vals, "decls": decls})
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    let max = a.u("max", 90) as usize;
    let mut i = 0;
    let mut k = 0;
    while i < a.u("n", 500) {
        k += 1;
        let s = seed.wrapping_mul(1_000_003).wrapping_add(k);
        let mut r = Rng::new(s);
        let tok = r.chance(3, 4);
        let text = if tok {
            T { r: Rng::new(s ^ 77), n: 0, fuel: 0 }.module()
        } else {
            crate::effgen::G::new(s).module().0
        };
        // the same program over another type: every place agrees, but the type may be wrong
        let text = if r.chance(1, 12) {
            text.replace("core.i32", *r.pick(&["tribute.var", "core.tuple(core.i64, type.infer)", "core.array(core.tuple(tribute.unresolved))", "core.i64", "core.tuple(core.i64)", "core.func(core.i64)", "core.var"]))
        } else {
            text
        };
        let Ok(p) = quiet(|| parse(&text)) else { continue };
        let (mut ctx, m) = match p {
            Ok(x) => x,
            Err(e) => {
                if tok {
                    panic!("{e}\n{text}");
                }
                continue;
            }
        };
        let mut ds = vec![];
        declarations(&ctx, m.op(), &mut ds);
        let edits = match r.below(8) {
            0 | 1 => 0,
            2..=5 => 1,
            _ => 2,
        };
        let mut log = vec![];
        for _ in 0..edits {
            log.push(mutate(&mut ctx, m, &mut ds, &mut r));
        }
        let mut t = Tables::default();
        tables(&ctx, m.op(), &mut t);
        if t.ops.len() > max {
            continue;
        }
        i += 1;
        crate::case(&format!("control case {s}"));
        let got = quiet(|| validate(&ctx, m, &ds));
        crate::idle();
        let (ops, free, panic, msgs) = match got {
            Ok(v) => {
                let ops: BTreeSet<usize> = v.errors.iter().filter_map(|e| e.op).map(|o| t.ops.iter().position(|&x| x == o).map(|p| p + 1).unwrap_or(0)).collect();
                (ops, v.errors.iter().any(|e| e.op.is_none()), String::new(), v.errors.iter().map(|e| e.to_string()).collect::<Vec<_>>())
            }
            Err(e) => (BTreeSet::new(), false, e, vec![]),
        };
        let mut case = dump(&ctx, m, &ds, &t);
        case["id"] = json!(format!("{s}:{}", log.join(",")));
        case["got"] = json!({"ops": ops, "free": free as u8, "panic": panic, "msgs": msgs});
        case["text"] = json!(text);
        writeln!(f, "{case}").unwrap();
    }
}
