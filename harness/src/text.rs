//! Random modules built through the library, printed and parsed back (IrText).
use crate::Args;
use crate::equiv::quiet;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::Write;
use trunk_ir::context::{BlockArgData, BlockData, IrContext, OperationDataBuilder, RegionData};
use trunk_ir::location::Span;
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::refs::*;
use trunk_ir::symbol::Symbol;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};

// ---------------------------------------------------------------- views
pub fn ty_str(ctx: &IrContext, t: TypeRef) -> String {
    let d = ctx.types.get(t);
    let ps: Vec<String> = d.params.iter().map(|p| ty_str(ctx, *p)).collect();
    let mut at: Vec<(String, String)> = d.attrs.iter().map(|(k, v)| (k.to_string(), attr_str(ctx, v))).collect();
    at.sort();
    let at: Vec<String> = at.into_iter().map(|(k, v)| format!("{k}={v}")).collect();
    format!("{}.{}<{}|{}>", d.dialect, d.name, ps.join(","), at.join(","))
}
pub fn attr_str(ctx: &IrContext, a: &Attribute) -> String {
    match a {
        Attribute::Unit => "unit".into(),
        Attribute::Bool(b) => format!("bool {b}"),
        Attribute::Int(i) => format!("int {i}"),
        Attribute::FloatBits(b) => format!("float {b:016x}"),
        Attribute::String(s) => format!("str {:?}", s),
        Attribute::Bytes(b) => format!("bytes {:?}", b.to_vec()),
        Attribute::Symbol(s) => format!("sym {:?}", s.to_string()),
        Attribute::Type(t) => format!("type {}", ty_str(ctx, *t)),
        Attribute::List(l) => format!("list [{}]", l.iter().map(|x| attr_str(ctx, x)).collect::<Vec<_>>().join(";")),
        Attribute::Location(l) => format!("loc {:?} {} {}", ctx.paths.get(l.path), l.span.start, l.span.end),
    }
}

#[derive(Default)]
struct View {
    vals: HashMap<ValueRef, usize>,
    blks: HashMap<BlockRef, usize>,
    out: Vec<Value>,
}
impl View {
    fn def(&mut self, v: ValueRef) -> usize {
        let n = self.vals.len() + 1;
        self.vals.insert(v, n);
        n
    }
    fn op(&mut self, ctx: &IrContext, op: OpRef, depth: usize) {
        let d = ctx.op(op);
        let operands: Vec<usize> = ctx.op_operands(op).iter().map(|v| self.vals.get(v).copied().unwrap_or(0)).collect();
        let succ: Vec<usize> = d.successors.iter().map(|b| self.blks.get(b).copied().unwrap_or(0)).collect();
        let mut at: Vec<(String, String)> = d.attributes.iter().map(|(k, v)| (k.to_string(), attr_str(ctx, v))).collect();
        at.sort();
        let rt: Vec<String> = ctx.op_result_types(op).iter().map(|t| ty_str(ctx, *t)).collect();
        let i = self.out.len();
        self.out.push(json!(null));
        let mut regions = vec![];
        for r in d.regions.iter() {
            let bs = ctx.region(*r).blocks.to_vec();
            for b in &bs {
                let n = self.blks.len() + 1;
                self.blks.insert(*b, n);
            }
            let ids: Vec<usize> = bs.iter().map(|b| self.blks[b]).collect();
            regions.push(json!(ids));
            // values are in scope in the order of the text
            for b in bs {
                let args: Vec<usize> = ctx.block_args(b).iter().map(|v| self.def(*v)).collect();
                let tys: Vec<String> = ctx.block_args(b).iter().map(|v| ty_str(ctx, ctx.value_ty(*v))).collect();
                self.out.push(json!({"k": "block", "d": depth + 1, "id": self.blks[&b], "args": args, "t": tys}));
                for o in ctx.block(b).ops.to_vec() {
                    self.op(ctx, o, depth + 2);
                }
            }
        }
        let res: Vec<usize> = ctx.op_results(op).iter().map(|v| self.def(*v)).collect();
        self.out[i] = json!({"k": "op", "d": depth, "n": format!("{}.{}", d.dialect, d.name), "o": operands, "r": res, "t": rt,
            "a": at.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "s": succ, "g": regions});
    }
}
pub fn view(ctx: &IrContext, op: OpRef) -> Value {
    let mut v = View::default();
    v.op(ctx, op, 0);
    Value::Array(v.out)
}

// ---------------------------------------------------------------- generator
struct B<'a> {
    ctx: &'a mut IrContext,
    r: Rng,
    loc: Location,
    vals: Vec<ValueRef>,
    tys: Vec<TypeRef>,
    budget: usize,
}
const STRS: [&str; 12] = ["", "a", "hello world", "tab\there", "q\"uote", "back\\slash", "nl\n", "\u{0}\u{1}\u{1f}", "\u{80}\u{9f}\u{a0}", "한글 é", "\\n", "}{%x ^bb0: !t0 ="];
const SYMS: [&str; 11] = ["a", "main", "A_1", "std::list::map", "has space", "", "1st", "\"q\"", "한글", "x.y", "true"];
const INTS: [i128; 9] = [0, 1, -1, 42, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, -(1 << 70)];
const FLTS: [f64; 12] = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, f64::MAX, 123456789.125, 1e21, 2.5e-7];
/// names that begin like words of the grammar
const DIAL: [&str; 12] = ["test", "unit", "unit_x", "true1", "falsey", "true", "b", "loc", "T", "_u", "inf", "locate"];
const NAME: [&str; 12] = ["t", "i32x", "unit", "true", "op_1", "b", "loc", "iffy", "_", "attributes", "Z9", "captures"];
impl B<'_> {
    /// any text: every kind of character, more of the ones that matter to the grammar
    fn text(&mut self) -> String {
        if self.r.chance(1, 2) {
            return self.r.pick(&STRS).to_string();
        }
        let n = self.r.below(9);
        (0..n)
            .map(|_| {
                let c = match self.r.below(6) {
                    0 => self.r.below(0x20) as u32,
                    1 | 2 => self.r.range(0x20, 0x7f) as u32,
                    3 => *self.r.pick(&['"', '\\', 'x', 'n', '0', '}', '@', '\u{7f}', ' ', '\'', '/', ',']) as u32,
                    4 => self.r.range(0x80, 0x2ff) as u32,
                    _ => self.r.below(0x110000) as u32,
                };
                char::from_u32(c).unwrap_or('\u{fffd}')
            })
            .collect()
    }
    fn sy(&mut self) -> Symbol {
        if self.r.chance(1, 4) {
            let t = self.text();
            return Symbol::from_dynamic(&t);
        }
        Symbol::from_dynamic(*self.r.pick(&SYMS))
    }
    fn attr(&mut self, depth: usize) -> Attribute {
        match self.r.below(if depth > 2 { 8 } else { 11 }) {
            0 => Attribute::Unit,
            1 => Attribute::Bool(self.r.chance(1, 2)),
            2 => Attribute::Int(*self.r.pick(&INTS)),
            3 => {
                let v = ((self.r.next() as i128) << 64) | self.r.next() as i128;
                Attribute::Int(v >> self.r.below(128))
            }
            4 => {
                let mut f = *self.r.pick(&FLTS);
                if self.r.chance(1, 3) {
                    f = f64::from_bits(self.r.next());
                    if f.is_nan() {
                        f = f64::NAN; // the text has one NaN
                    }
                }
                if self.r.chance(1, 6) {
                    f = *self.r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0]);
                }
                Attribute::FloatBits(f.to_bits())
            }
            5 => Attribute::String(self.text()),
            6 => Attribute::Symbol(self.sy()),
            7 => {
                let n = if self.r.chance(1, 6) { 40 } else { self.r.below(6) };
                let mut v: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                if self.r.chance(1, 3) {
                    v.extend_from_slice(b"\"\\\n\r\t\0x");
                }
                Attribute::Bytes(v.into_iter().collect())
            }
            8 => Attribute::Type(self.ty(depth + 1)),
            9 => {
                let n = if self.r.chance(1, 10) { 9 } else { self.r.below(4) };
                Attribute::List((0..n).map(|_| self.attr(depth + 1)).collect())
            }
            _ => {
                let p = self.text();
                let p = self.ctx.paths.intern(p);
                Attribute::Location(Location::new(p, Span::new(self.r.below(10), self.r.below(1000))))
            }
        }
    }
    fn ty(&mut self, depth: usize) -> TypeRef {
        if !self.tys.is_empty() && self.r.chance(1, 2) {
            return *self.r.pick(&self.tys.clone());
        }
        let simple = depth > 2 || self.r.chance(1, 2);
        let t = if simple {
            let odd = (*self.r.pick(&DIAL), *self.r.pick(&NAME));
            let (d, n) = *self.r.pick(&[odd, odd, ("core", "i32"), ("core", "i64"), ("core", "nil"), ("core", "f64"), ("tribute_rt", "anyref"), ("test", "t"), ("tribute_rt", "int")]);
            TypeDataBuilder::new(Symbol::new(d), Symbol::new(n)).build()
        } else {
            match self.r.below(4) {
                0 => {
                    let n = self.r.below(4);
                    let mut b = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("tuple"));
                    for _ in 0..n {
                        b = b.param(self.ty(depth + 1));
                    }
                    b.build()
                }
                1 => {
                    let n = self.r.below(3);
                    let mut b = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(self.ty(depth + 1));
                    for _ in 0..n {
                        b = b.param(self.ty(depth + 1));
                    }
                    if self.r.chance(1, 3) {
                        b = b.attr("effect", Attribute::Type(self.ty(depth + 1)));
                    }
                    b.build()
                }
                2 => {
                    let odd = self.text();
                    let name = *self.r.pick(&[odd.as_str(), "Point", "P", "std::Opt", "한글", "1st", "Point", "t0", "a b"]);
                    let n = self.r.below(3);
                    let mut fields = vec![];
                    for i in 0..n {
                        let t = self.ty(depth + 1);
                        fields.push(Attribute::List(vec![Attribute::Symbol(Symbol::from_dynamic(&format!("f{i}"))), Attribute::Type(t)]));
                    }
                    TypeDataBuilder::new(Symbol::new("adt"), Symbol::new("struct"))
                        .attr("name", Attribute::Symbol(Symbol::from_dynamic(name)))
                        .attr("fields", Attribute::List(fields))
                        .build()
                }
                _ => {
                    let mut b = TypeDataBuilder::new(Symbol::new("test"), Symbol::new("attrs"));
                    if self.r.chance(1, 2) {
                        b = b.param(self.ty(depth + 1));
                    }
                    let n = self.r.below(3);
                    for i in 0..n {
                        let k = ["k", "a.b", "z_9"][i];
                        b = b.attr(k, self.attr(depth + 1));
                    }
                    b.build()
                }
            }
        };
        let t = self.ctx.types.intern(t);
        self.tys.push(t);
        t
    }
    fn attrs(&mut self, mut b: OperationDataBuilder) -> OperationDataBuilder {
        let n = if self.r.chance(1, 2) { 0 } else { self.r.below(4) };
        for i in 0..n {
            let k = ["value", "tribute.calling_convention", "z", "sym"][i];
            let k = if self.r.chance(1, 5) { ["unit", "true", "loc", "_x.y_9.z"][i] } else { k };
            b = b.attr(k, self.attr(0));
        }
        b
    }
    fn block(&mut self, args: &[TypeRef]) -> BlockRef {
        let args = args.iter().map(|t| BlockArgData { ty: *t, attrs: Default::default() }).collect();
        self.ctx.create_block(BlockData { location: self.loc, args, ops: Default::default(), parent_region: None })
    }
    /// A body: several blocks, each with at least one operation.
    fn region(&mut self, entry: &[TypeRef], depth: usize, isolated: bool, multi: bool) -> RegionRef {
        let saved = self.vals.clone();
        if isolated {
            self.vals.clear();
        }
        let n = if multi && self.r.chance(1, 2) { self.r.range(2, 4) } else { 1 };
        let mut blocks = vec![self.block(entry)];
        for _ in 1..n {
            let k = self.r.below(3);
            let tys: Vec<TypeRef> = (0..k).map(|_| self.ty(1)).collect();
            blocks.push(self.block(&tys));
        }
        for b in &blocks {
            let a = self.ctx.block_args(*b).to_vec();
            self.vals.extend(a);
            let k = self.r.range(1, 4);
            for _ in 0..k {
                let op = self.op(depth, &blocks);
                self.ctx.push_op(*b, op);
            }
        }
        self.vals = saved;
        self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.into_iter().collect(), parent_op: None })
    }
    fn operands(&mut self, max: usize) -> Vec<ValueRef> {
        if self.vals.is_empty() {
            return vec![];
        }
        let n = self.r.below(max + 1);
        (0..n).map(|_| *self.r.pick(&self.vals.clone())).collect()
    }
    fn op(&mut self, depth: usize, blocks: &[BlockRef]) -> OpRef {
        self.budget = self.budget.saturating_sub(1);
        let kind = if depth > 3 || self.budget == 0 { 0 } else { self.r.below(8) };
        let s = Symbol::new;
        match kind {
            6 => {
                // closure.lambda (captures) { body }
                let n = self.r.below(3);
                let ps: Vec<TypeRef> = (0..n).map(|_| self.ty(1)).collect();
                let ret = self.ty(1);
                let region = self.region(&ps, depth + 1, false, true);
                let f = self.ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).param(ret).params(ps).build());
                let c = self.ctx.types.intern(TypeDataBuilder::new(s("closure"), s("closure")).param(f).build());
                let mut b = OperationDataBuilder::new(self.loc, s("closure"), s("lambda")).result(c);
                b = b.operands(self.operands(3));
                b = self.attrs(b);
                let d = b.region(region).build(self.ctx);
                let op = self.ctx.create_op(d);
                let r = self.ctx.op_results(op).to_vec();
                self.vals.extend(r);
                op
            }
            7 => {
                let n = self.r.below(3);
                let ps: Vec<TypeRef> = (0..n).map(|_| self.ty(1)).collect();
                let ret = self.ty(1);
                let region = self.region(&ps, depth + 1, false, true);
                let conv = if self.r.chance(1, 2) { 0 } else { 1 };
                let c = self.ctx.types.intern(TypeDataBuilder::new(s("tribute_control"), s("callable")).param(ret).params(ps)
                    .attr("tribute.calling_convention", Attribute::Int(conv)).build());
                let mut b = OperationDataBuilder::new(self.loc, s("tribute_control"), s("lambda")).result(c);
                b = b.operands(self.operands(3));
                if self.r.chance(1, 3) {
                    b = b.attr("note", self.attr(0));
                }
                let d = b.region(region).build(self.ctx);
                let op = self.ctx.create_op(d);
                let r = self.ctx.op_results(op).to_vec();
                self.vals.extend(r);
                op
            }
            _ => {
                let odd = (*self.r.pick(&DIAL), *self.r.pick(&NAME));
                let (d, n) = *self.r.pick(&[odd, ("arith", "const"), ("test", "op"), ("func", "call"), ("scf", "if"), ("cf", "br"), ("adt", "struct_new"), ("func", "return")]);
                let mut b = OperationDataBuilder::new(self.loc, s(d), s(n));
                let no = if self.r.chance(1, 8) { 7 } else { 3 };
                b = b.operands(self.operands(no));
                let nr = *self.r.pick(&[0usize, 1, 1, 1, 2, 3, 6]);
                for _ in 0..nr {
                    b = b.result(self.ty(0));
                }
                b = self.attrs(b);
                if kind >= 4 {
                    for _ in 0..self.r.range(1, 2) {
                        let k = if self.r.chance(1, 2) { 0 } else { self.r.below(3) };
                        let a: Vec<TypeRef> = (0..k).map(|_| self.ty(1)).collect();
                        let rg = self.region(&a, depth + 1, false, true);
                        b = b.region(rg);
                    }
                } else if self.r.chance(1, 4) {
                    for _ in 0..self.r.range(1, 3) {
                        b = b.successor(*self.r.pick(blocks));
                    }
                }
                let d = b.build(self.ctx);
                let op = self.ctx.create_op(d);
                let r = self.ctx.op_results(op).to_vec();
                self.vals.extend(r);
                op
            }
        }
    }
    fn top(&mut self, depth: usize) -> OpRef {
        let s = Symbol::new;
        match self.r.below(8) {
            0 if depth < 2 => self.module(depth + 1),
            1 => {
                // declaration
                let n = self.r.below(3);
                let mut t = TypeDataBuilder::new(s("core"), s("func")).param(self.ty(1));
                for _ in 0..n {
                    t = t.param(self.ty(1));
                }
                let t = self.ctx.types.intern(t.build());
                let mut b = OperationDataBuilder::new(self.loc, s("func"), s("func")).attr("sym_name", Attribute::Symbol(self.sy())).attr("type", Attribute::Type(t));
                if self.r.chance(1, 2) {
                    b = b.attr("abi", Attribute::String("C".into()));
                }
                let d = b.build(self.ctx);
                self.ctx.create_op(d)
            }
            2 => {
                let n = self.r.below(3);
                let ps: Vec<TypeRef> = (0..n).map(|_| self.ty(1)).collect();
                let ret = self.ty(1);
                let region = self.region(&ps, 1, true, true);
                let conv = if self.r.chance(1, 2) { 0 } else { 1 };
                let c = self.ctx.types.intern(TypeDataBuilder::new(s("tribute_control"), s("callable")).param(ret).params(ps)
                    .attr("tribute.calling_convention", Attribute::Int(conv)).build());
                let mut b = OperationDataBuilder::new(self.loc, s("tribute_control"), s("func")).attr("sym_name", Attribute::Symbol(self.sy())).attr("type", Attribute::Type(c));
                if self.r.chance(1, 3) {
                    b = b.attr("note", self.attr(0));
                }
                let d = b.region(region).build(self.ctx);
                self.ctx.create_op(d)
            }
            3 => {
                let mut b = OperationDataBuilder::new(self.loc, s("test"), s("decl"));
                b = self.attrs(b);
                let d = b.build(self.ctx);
                self.ctx.create_op(d)
            }
            _ => {
                let n = self.r.below(4);
                let ps: Vec<TypeRef> = (0..n).map(|_| self.ty(1)).collect();
                let ret = self.ty(1);
                let region = self.region(&ps, 1, true, true);
                let t = self.ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).param(ret).params(ps).build());
                let mut b = OperationDataBuilder::new(self.loc, s("func"), s("func")).attr("sym_name", Attribute::Symbol(self.sy())).attr("type", Attribute::Type(t));
                b = self.attrs(b);
                let d = b.region(region).build(self.ctx);
                self.ctx.create_op(d)
            }
        }
    }
    fn module(&mut self, depth: usize) -> OpRef {
        let n = self.r.range(1, 4);
        let b = self.block(&[]);
        for _ in 0..n {
            let op = self.top(depth);
            self.ctx.push_op(b, op);
        }
        let r = self.ctx.create_region(RegionData { location: self.loc, blocks: [b].into_iter().collect(), parent_op: None });
        let d = OperationDataBuilder::new(self.loc, Symbol::new("core"), Symbol::new("module")).attr("sym_name", Attribute::Symbol(self.sy())).region(r).build(self.ctx);
        self.ctx.create_op(d)
    }
}

fn one(seed: u64) -> Value {
    let mut ctx = IrContext::new();
    let p = ctx.paths.intern("x".into());
    let loc = Location::new(p, Span::new(0, 0));
    let mut b = B { ctx: &mut ctx, r: Rng::new(seed), loc, vals: vec![], tys: vec![], budget: 30 };
    let m = b.module(0);
    // some types have names given by the user
    let n = b.r.below(4);
    for i in 0..n {
        if b.tys.is_empty() || b.r.chance(1, 3) {
            break;
        }
        let t = *b.r.pick(&b.tys.clone());
        let odd = b.text();
        let names = ["t0", "Al", "odd name", "Point", "9x", "q\"q", odd.as_str()];
        let nm = if b.r.chance(1, 2) { names[b.r.below(names.len())].to_string() } else { format!("u{i}") };
        b.ctx.register_type_alias(Symbol::from_dynamic(&nm), t);
    }
    crate::case(&format!("text seed {seed}"));
    let src = view(&ctx, m);
    let mut steps = vec![];
    let mut texts: Vec<String> = vec![];
    let mut cur: (IrContext, OpRef) = (ctx, m);
    for _ in 0..3 {
        let t = match quiet(|| print_module(&cur.0, cur.1)) {
            Ok(t) => t,
            Err(e) => {
                steps.push(json!({"a": "print", "ok": 0, "text": e, "g": []}));
                break;
            }
        };
        texts.push(t.clone());
        steps.push(json!({"a": "print", "ok": 1, "text": "", "g": []}));
        let mut c2 = IrContext::new();
        match quiet(|| parse_module(&mut c2, &t).map_err(|e| e.to_string())) {
            Ok(Ok(op)) => {
                steps.push(json!({"a": "parse", "ok": 1, "text": "", "g": view(&c2, op)}));
                cur = (c2, op);
            }
            Ok(Err(e)) | Err(e) => {
                steps.push(json!({"a": "parse", "ok": 0, "text": e, "g": []}));
                break;
            }
        }
    }
    // damaged text is read or refused, never answered with a crash
    let mut crashes = vec![];
    let mut r = Rng::new(seed ^ 77);
    if let Some(t) = texts.first() {
        let chars: Vec<char> = t.chars().collect();
        for _ in 0..6 {
            let mut u = chars.clone();
            for _ in 0..r.range(1, 3) {
                let at = r.below(u.len());
                match r.below(4) {
                    0 => {
                        u.remove(at);
                    }
                    1 => u.insert(at, *r.pick(&['{', '}', '%', '^', '!', '@', '"', '\\', '(', ',', '=', '-', '9', '\u{d55c}'])),
                    2 => u.truncate(at.max(1)),
                    _ => {
                        let to = r.below(u.len());
                        u.swap(at, to);
                    }
                }
                if u.is_empty() {
                    break;
                }
            }
            let u: String = u.into_iter().collect();
            let mut c2 = IrContext::new();
            if let Err(e) = quiet(|| parse_module(&mut c2, &u).map(|_| ())) {
                crashes.push(json!([e, u]));
            }
        }
    }
    json!({"id": format!("m{seed}"), "src": src, "steps": steps, "text": texts.first(), "crashes": crashes})
}

pub fn run(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).unwrap());
    let seed = a.u("seed", 1);
    for i in 0..a.u("n", 100) {
        writeln!(f, "{}", one(seed.wrapping_mul(1_000_003).wrapping_add(i))).unwrap();
    }
}
