//! Random well-typed TrunkIR programs, as text.
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    I1,
    I32,
    I64,
    F64,
    S, // struct Pair { a: i32, b: i64, c: i32, d: f64, e: i64 }
    L, // enum Lst { Nil, Entry1(i32), Entry2(i64, i32), Entry21(i32, i32, f64, i64) }
    Rb, // managed: boxed i32
    Rn, // managed: enum Tree { Leaf, Tip(boxed), Node(Tree, i64, Tree) }
    Rp, // managed: struct Rec { n: i32, t: Tree, b: boxed }
    By, // byte string
    Li, // list of i32
    Lb, // list of byte strings
    Ai, // i32, i64, f64, struct or bytes, converted to the uniform representation
    Al,
    Af,
    As,
    Ab,
}
pub const UNIFORM: [(Ty, Ty); 5] = [(Ty::Ai, Ty::I32), (Ty::Al, Ty::I64), (Ty::Af, Ty::F64), (Ty::As, Ty::S), (Ty::Ab, Ty::By)];
pub const INT_OPS: [&str; 5] = ["+", "-", "*", "/", "%"];
pub const CMP_OPS: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];
/// declarations of the built-in functions, as the front end leaves them
pub fn builtin_decls(wasm: bool) -> String {
    let mut s = String::new();
    let mut decl = |name: &str, ps: &[&str], ret: &str, abi: &str| {
        let a: Vec<String> = ps.iter().enumerate().map(|(i, t)| format!("%a{i}: {t}")).collect();
        let _ = writeln!(s, "  func.func @\"{name}\"({}) -> {ret} attributes {{abi = \"{abi}\"}} {{\n    func.unreachable\n  }}", a.join(", "));
    };
    for (m, t) in [("Int", "core.i32"), ("Nat", "core.i32"), ("Float", "core.f64")] {
        for o in INT_OPS {
            if m != "Float" || o != "%" {
                decl(&format!("{m}::{o}"), &[t, t], t, "intrinsic");
            }
        }
        for o in CMP_OPS {
            decl(&format!("{m}::{o}"), &[t, t], "core.i1", "intrinsic");
        }
    }
    let (by, n) = ("core.bytes", "core.i32");
    decl("__bytes_get_or_panic", &[by, n], n, "intrinsic");
    decl("std::io::__tribute_io_write", &[by, "core.i1"], "core.nil", "intrinsic");
    decl("__tribute_bytes_len", &[by], n, "C");
    decl("__tribute_bytes_concat", &[by, by], by, "C");
    decl("__tribute_bytes_range_equal", &[by, n, by, n, n], "core.i1", "C");
    if !wasm {
        decl("__tribute_bytes_slice_or_panic", &[by, n, n], by, "C");
        decl("List::__tribute_list_prepend_intrinsic", &["tribute_rt.anyref", "tribute_rt.anyref"], "tribute_rt.anyref", "intrinsic");
    }
    // what a value holds, element by element
    s.push_str("  func.func @out_bytes(%b: core.bytes, %i: core.i32) -> core.i32 {
    %n = func.call %b {callee = @__tribute_bytes_len} : core.i32
    %c = func.call %i, %n {callee = @\"Nat::<\"} : core.i1
    %r = scf.if %c : core.i32 {
      %x = func.call %b, %i {callee = @__bytes_get_or_panic} : core.i32
      %w = arith.extend %x : core.i64
      %o = func.call %w {callee = @vp_out} : core.i64
      %k = arith.const {value = 1} : core.i32
      %j = func.call %i, %k {callee = @\"Nat::+\"} : core.i32
      %q = func.call %b, %j {callee = @out_bytes} : core.i32
      scf.yield %q
    } {
      scf.yield %i
    }
    func.return %r
  }
");
    if !wasm {
        for (f, e) in [("out_ints", "core.i32"), ("out_strs", "core.bytes")] {
            let show = if f == "out_ints" {
                "%w = arith.extend %x : core.i64\n      %o = func.call %w {callee = @vp_out} : core.i64".to_string()
            } else {
                "%z = arith.const {value = 0} : core.i32\n      %o = func.call %x, %z {callee = @out_bytes} : core.i32".to_string()
            };
            let _ = write!(s, "  func.func @{f}(%l: tribute_rt.anyref) -> core.i32 {{
    %c = list.is_empty %l {{element_type = {e}}} : core.i1
    %r = scf.if %c : core.i32 {{
      %z0 = arith.const {{value = 0}} : core.i32
      scf.yield %z0
    }} {{
      %x = list.head %l {{element_type = {e}}} : {e}
      {show}
      %t = list.tail %l {{element_type = {e}}} : tribute_rt.anyref
      %q = func.call %t {{callee = @{f}}} : core.i32
      %one = arith.const {{value = 1}} : core.i32
      %q1 = arith.addi %q, %one : core.i32
      scf.yield %q1
    }}
    func.return %r
  }}
");
        }
    }
    s
}
pub const TREE_TY: &str = "adt.enum() {name = @Tree, variants = [[@Leaf, []], [@Tip, [tribute_rt.anyref]], [@Node, [tribute_rt.anyref, core.i64, tribute_rt.anyref]]]}";
pub const CTORS: &str = "  func.func @mk_leaf() -> tribute_rt.anyref {
    %r = adt.variant_new {tag = @Leaf, type = !Tree} : tribute_rt.anyref
    func.return %r
  }
  func.func @mk_tip(%a: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = adt.variant_new %a {tag = @Tip, type = !Tree} : tribute_rt.anyref
    func.return %r
  }
  func.func @mk_node(%a: tribute_rt.anyref, %k: core.i64, %b: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = adt.variant_new %a, %k, %b {tag = @Node, type = !Tree} : tribute_rt.anyref
    func.return %r
  }
  func.func @mk_rec(%n: core.i32, %t: tribute_rt.anyref, %b: tribute_rt.anyref, %w: core.i64, %c: tribute_rt.anyref, %u: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = adt.struct_new %n, %t, %b, %w, %c, %u {type = !Rec} : tribute_rt.anyref
    func.return %r
  }
";
pub const REC_TY: &str = "adt.struct(core.i32, tribute_rt.anyref, tribute_rt.anyref, core.i64, tribute_rt.anyref, tribute_rt.anyref) {fields = [[@n, core.i32], [@t, tribute_rt.anyref], [@b, tribute_rt.anyref], [@w, core.i64], [@c, tribute_rt.anyref], [@u, tribute_rt.anyref]], name = @Rec}";
const REC_FIELDS: [Ty; 6] = [Ty::I32, Ty::Rn, Ty::Rb, Ty::I64, Ty::Rb, Ty::Rn];
pub const STRUCT_TY: &str = "adt.struct(core.i32, core.i64, core.i32, core.f64, core.i64) {fields = [[@a, core.i32], [@b, core.i64], [@c, core.i32], [@d, core.f64], [@e, core.i64]], name = @Pair}";
const PAIR_FIELDS: [Ty; 5] = [Ty::I32, Ty::I64, Ty::I32, Ty::F64, Ty::I64];
pub const ENUM_TY: &str = "adt.enum() {name = @Lst, variants = [[@Nil, []], [@Entry1, [core.i32]], [@Entry2, [core.i64, core.i32]], [@Entry21, [core.i32, core.i32, core.f64, core.i64]]]}";
const VARIANTS: [(&str, &[Ty]); 4] =
    [("Nil", &[]), ("Entry1", &[Ty::I32]), ("Entry2", &[Ty::I64, Ty::I32]), ("Entry21", &[Ty::I32, Ty::I32, Ty::F64, Ty::I64])];
impl Ty {
    pub fn s(self) -> &'static str {
        match self {
            Ty::I1 => "core.i1",
            Ty::I32 => "core.i32",
            Ty::I64 => "core.i64",
            Ty::F64 => "core.f64",
            Ty::S => "!Pair",
            Ty::L => "!Lst",
            Ty::By => "core.bytes",
            _ => "tribute_rt.anyref",
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            Ty::I1 => 1,
            Ty::I32 => 32,
            Ty::I64 => 64,
            _ => 0,
        }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub flt: bool,
    pub adt: bool,
    pub calls: bool,
    pub indirect: bool,
    pub loops: bool,
    pub switch: bool,
    pub cf: bool,
    pub tail: bool,
    pub trap_div: bool,
    pub casts: bool,
    pub i1_arith: bool,
    pub negi: bool,
    pub shifts: bool,
    pub struct_set: bool,
    pub size: usize,
    pub call_heavy: bool,
    pub control_heavy: bool,
    pub funcs: usize,
    pub boxes: bool, // heap mode with boxed integers only
    pub ctors: bool, // heap mode: objects come from constructor functions
    pub heap: bool, // reference-counted values
    pub ext: &'static str, // attributes of the external output function
    pub rich: bool, // byte strings, lists, operator functions, uniform representation
    pub wasm: bool, // the fragment the wasm backend takes
    pub cps: bool, // heap mode: functions of the CPS convention, which own their arguments
    pub inl: bool, // many small functions, chains of wrappers, tail calls everywhere
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            flt: true,
            adt: true,
            calls: true,
            indirect: true,
            loops: true,
            switch: true,
            cf: true,
            tail: true,
            trap_div: true,
            casts: true,
            i1_arith: true,
            negi: true,
            shifts: true,
            struct_set: true,
            size: 10,
            call_heavy: false,
            control_heavy: false,
            funcs: 3,
            heap: false,
            ctors: false,
            boxes: false,
            ext: "C",
            wasm: false,
            inl: false,
            cps: false,
            rich: false,
        }
    }
}

#[derive(Clone)]
pub struct Sig {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub recursive: bool, // first parameter is an i32 fuel counter
}

pub struct G {
    pub r: Rng,
    pub o: Opts,
    out: String,
    vals: Vec<(String, Ty)>,
    next: usize,
    depth: usize,
    budget: isize,
    sigs: Vec<Sig>,
    /// functions of the CPS convention: no result, arguments are handed over
    cps: Vec<Sig>,
    /// calls of them the current function may still make
    ncps: usize,
    cur: Option<Sig>,
    blocks: usize,
    in_loop: bool,
    /// innermost structured loop that may be left from here: (counter, carried type)
    lp: Vec<(String, Ty, Vec<Ty>)>,
}

pub const I32S: [i64; 12] =
    [0, 1, -1, 2, 3, 7, -8, 100, 255, 65536, i32::MAX as i64, i32::MIN as i64];
pub const I64S: [i64; 15] = [
    0, 1, -1, 2, 5, -7, 255, 65537, 2147483647, -2147483648, 4294967295, 4294967296, -4294967297, i64::MAX, i64::MIN,
];

impl G {
    pub fn new(seed: u64, o: Opts) -> G {
        G {
            r: Rng::new(seed),
            o,
            out: String::new(),
            vals: vec![],
            next: 0,
            depth: 0,
            budget: 0,
            sigs: vec![],
            cps: vec![],
            ncps: 0,
            cur: None,
            blocks: 0,
            lp: vec![],
            in_loop: false,
        }
    }
    fn fresh(&mut self) -> String {
        self.next += 1;
        format!("%v{}", self.next)
    }
    fn line(&mut self, s: &str) {
        self.out.push_str("    ");
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn def(&mut self, t: Ty, rhs: &str) -> String {
        let v = self.fresh();
        let l = format!("{v} = {rhs}");
        self.line(&l);
        self.vals.push((v.clone(), t));
        v
    }
    fn const_of(&mut self, t: Ty) -> String {
        let rhs = match t {
            Ty::I1 => format!("arith.const {{value = {}}} : core.i1", self.r.below(2)),
            Ty::I32 => {
                let v = if self.r.chance(4, 5) { *self.r.pick(&I32S) } else { self.r.next() as i32 as i64 };
                format!("arith.const {{value = {v}}} : core.i32")
            }
            Ty::I64 => {
                let v = if self.r.chance(4, 5) { *self.r.pick(&I64S) } else { self.r.next() as i64 };
                format!("arith.const {{value = {v}}} : core.i64")
            }
            Ty::F64 => format!("arith.const {{value = {}.0}} : core.f64", self.r.below(40) as i64 - 20),
            Ty::S => {
                let fs: Vec<String> = PAIR_FIELDS.iter().map(|t| self.val(*t)).collect();
                format!("adt.struct_new {} {{type = !Pair}} : !Pair", fs.join(", "))
            }
            Ty::L => {
                let (tag, ts) = *self.r.pick(&VARIANTS);
                let fs: Vec<String> = ts.iter().map(|t| self.val(*t)).collect();
                format!("adt.variant_new {} {{tag = @{tag}, type = !Lst}} : !Lst", fs.join(", ")).replace("new  {", "new {")
            }
            Ty::Rb => {
                let a = self.val(Ty::I32);
                format!("tribute_rt.box_int {a} : tribute_rt.anyref")
            }
            Ty::Rn => match self.r.below(if self.depth > 4 { 2 } else { 4 }) {
                0 if self.o.ctors => "func.call {callee = @mk_leaf} : tribute_rt.anyref".to_string(),
                0 => "adt.variant_new {tag = @Leaf, type = !Tree} : tribute_rt.anyref".to_string(),
                1 => {
                    let a = self.val(Ty::Rb);
                    self.new_obj(&a, "mk_tip", "adt.variant_new", "tag = @Tip, type = !Tree")
                }
                _ => {
                    self.depth += 1;
                    let a = self.val(Ty::Rn);
                    let k = self.val(Ty::I64);
                    let b = self.val(Ty::Rn);
                    self.depth -= 1;
                    self.new_obj(&format!("{a}, {k}, {b}"), "mk_node", "adt.variant_new", "tag = @Node, type = !Tree")
                }
            },
            Ty::Rp => {
                let fs: Vec<String> = REC_FIELDS.iter().map(|t| self.val(*t)).collect();
                self.new_obj(&fs.join(", "), "mk_rec", "adt.struct_new", "type = !Rec")
            }
            Ty::By => {
                let n = *self.r.pick(&[0usize, 0, 1, 2, 3, 5, 9]);
                // few letters, the zero byte among them, so that parts of different strings are alike
                let few = self.r.chance(1, 2);
                let b: String = (0..n)
                    .map(|_| format!("\\x{:02x}", if few { *self.r.pick(&[0x61, 0x61, 0, 0xe3]) } else { self.byte() }))
                    .collect();
                format!("adt.bytes_const {{value = b\"{b}\"}} : core.bytes")
            }
            Ty::Li | Ty::Lb => {
                let (e, es) = if t == Ty::Li { (Ty::I32, "core.i32") } else { (Ty::By, "core.bytes") };
                if self.r.chance(1, 3) {
                    format!("list.empty {{element_type = {es}}} : tribute_rt.anyref")
                } else {
                    let l = self.val(t);
                    let x = self.val(e);
                    self.prepend(&x, &l, es)
                }
            }
            _ => {
                let from = UNIFORM.iter().find(|u| u.0 == t).unwrap().1;
                let mut v = self.val(from);
                if self.o.wasm && from == Ty::I32 {
                    // integers in the uniform representation have 31 bits on this target
                    let k = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
                    v = self.def(Ty::I32, &format!("arith.shr {v}, {k} : core.i32"));
                }
                format!("core.unrealized_conversion_cast {v} : tribute_rt.anyref")
            }
        };
        self.def(t, &rhs)
    }
    fn byte(&mut self) -> u8 {
        if self.r.chance(1, 2) { *self.r.pick(&[0u8, 1, 10, 13, 65, 127, 128, 255]) } else { self.r.next() as u8 }
    }
    fn prepend(&mut self, x: &str, l: &str, es: &str) -> String {
        match self.r.below(3) {
            0 => {
                // calls of the generic declaration are specialized by element type
                let f = *self.r.pick(&["", "$Int", "$1"]);
                format!("func.call {x}, {l} {{callee = @\"List::__tribute_list_prepend_intrinsic{f}\"}} : tribute_rt.anyref")
            }
            _ => format!("list.prepend {x}, {l} {{element_type = {es}}} : tribute_rt.anyref"),
        }
    }
    /// call of a built-in function, directly or through a function value
    fn builtin(&mut self, t: Ty, name: &str, args: &[(String, Ty)]) -> String {
        let a: Vec<String> = args.iter().map(|x| x.0.clone()).collect();
        if self.o.indirect && name.contains("::") && self.r.chance(1, 5) {
            let ts: Vec<&str> = std::iter::once(t.s()).chain(args.iter().map(|x| x.1.s())).collect();
            let f = self.fresh();
            self.line(&format!("{f} = func.constant {{func_ref = @\"{name}\"}} : core.func({})", ts.join(", ")));
            return self.def(t, &format!("func.call_indirect {f}, {} : {}", a.join(", "), t.s()));
        }
        self.def(t, &format!("func.call {} {{callee = @\"{name}\"}} : {}", a.join(", "), t.s()))
    }
    fn small(&mut self) -> String {
        let k = self.r.below(6);
        self.def(Ty::I32, &format!("arith.const {{value = {k}}} : core.i32"))
    }
    /// a position in a string, and how much follows it
    fn spot(&mut self, a: &str) -> (String, String) {
        let n = self.builtin(Ty::I32, "__tribute_bytes_len", &[(a.to_string(), Ty::By)]);
        let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
        let x = if self.r.chance(1, 2) { self.small() } else { self.val(Ty::I32) };
        let n1 = self.def(Ty::I32, &format!("arith.addi {n}, {one} : core.i32"));
        let s = self.def(Ty::I32, &format!("arith.remui {x}, {n1} : core.i32"));
        let left = self.def(Ty::I32, &format!("arith.subi {n}, {s} : core.i32"));
        (s, left)
    }
    /// strings of hundreds of bytes, looked at here and there
    fn long_bytes(&mut self) {
        let n = self.r.range(250, 700);
        let p: Vec<u8> = (0..self.r.range(1, 7)).map(|_| self.byte() as u8).collect();
        let b: String = (0..n).map(|i| format!("\\x{:02x}", p[i % p.len()])).collect();
        let v = self.fresh();
        self.line(&format!("{v} = adt.bytes_const {{value = b\"{b}\"}} : core.bytes"));
        let mut w = v.clone();
        for _ in 0..self.r.range(1, 3) {
            let u = self.fresh();
            if self.o.wasm || self.r.chance(1, 2) {
                let c = self.val(Ty::By);
                let (x, y) = if self.r.chance(1, 2) { (w.clone(), c) } else { (c, w.clone()) };
                self.line(&format!("{u} = func.call {x}, {y} {{callee = @__tribute_bytes_concat}} : core.bytes"));
            } else {
                let (s, left) = self.spot(&w);
                let k = self.small();
                let q = self.def(Ty::I32, &format!("arith.remui {k}, {left} : core.i32"));
                let n = self.def(Ty::I32, &format!("arith.subi {left}, {q} : core.i32"));
                let e = self.def(Ty::I32, &format!("arith.addi {s}, {n} : core.i32"));
                self.line(&format!("{u} = func.call {w}, {s}, {e} {{callee = @__tribute_bytes_slice_or_panic}} : core.bytes"));
            }
            w = u;
        }
        let n = self.builtin(Ty::I32, "__tribute_bytes_len", &[(w.clone(), Ty::By)]);
        self.out_val(&n, Ty::I32);
        let (i, l) = self.spot(&w);
        let (j, m) = self.spot(&v);
        let len = self.least(&l, &m);
        let e = self.builtin(Ty::I1, "__tribute_bytes_range_equal", &[(w.clone(), Ty::By), (i, Ty::I32), (v, Ty::By), (j, Ty::I32), (len, Ty::I32)]);
        self.out_val(&e, Ty::I1);
        for _ in 0..3 {
            let (i, l) = self.spot(&w);
            let z = self.def(Ty::I32, "arith.const {value = 0} : core.i32");
            let c = self.builtin(Ty::I1, "Nat::<", &[(z, Ty::I32), (l, Ty::I32)]);
            let (r, x, z) = (self.fresh(), self.fresh(), self.fresh());
            self.line(&format!("{r} = scf.if {c} : core.i32 {{"));
            self.line(&format!("{x} = func.call {w}, {i} {{callee = @__bytes_get_or_panic}} : core.i32"));
            self.line(&format!("scf.yield {x}\n    }} {{\n    {z} = arith.const {{value = -1}} : core.i32\n    scf.yield {z}\n    }}"));
            self.vals.push((r.clone(), Ty::I32));
            self.out_val(&r, Ty::I32);
        }
    }
    fn least(&mut self, x: &str, y: &str) -> String {
        let c = self.builtin(Ty::I1, "Nat::<", &[(x.to_string(), Ty::I32), (y.to_string(), Ty::I32)]);
        let m = self.fresh();
        self.line(&format!("{m} = scf.if {c} : core.i32 {{\n    scf.yield {x}\n    }} {{\n    scf.yield {y}\n    }}"));
        self.vals.push((m.clone(), Ty::I32));
        m
    }
    fn rich_stmt(&mut self) {
        match self.r.below(21) {
            20 => {
                if !self.in_loop && self.r.chance(1, 2) {
                    self.long_bytes();
                }
            }
            0..=4 => {
                let m = *self.r.pick(&["Int", "Nat", "Nat"]);
                if self.r.chance(1, 2) {
                    let o = *self.r.pick(&CMP_OPS);
                    let (a, b) = (self.val(Ty::I32), self.val(Ty::I32));
                    self.builtin(Ty::I1, &format!("{m}::{o}"), &[(a, Ty::I32), (b, Ty::I32)]);
                } else {
                    let o = *self.r.pick(&INT_OPS);
                    let a = self.val(Ty::I32);
                    let b = if "/%".contains(o) && !self.r.chance(1, 10) {
                        let c = *self.r.pick(&[1i64, 2, 3, 7, 10, 255, 65536]);
                        self.def(Ty::I32, &format!("arith.const {{value = {c}}} : core.i32"))
                    } else {
                        self.val(Ty::I32)
                    };
                    let v = self.builtin(Ty::I32, &format!("{m}::{o}"), &[(a, Ty::I32), (b, Ty::I32)]);
                    if "/%".contains(o) {
                        self.out_val(&v, Ty::I32); // a division that is not looked at may go
                    }
                }
            }
            5 => {
                let k = self.r.below(9) as i64 - 4;
                let d = *self.r.pick(&[1i64, -1, 2, 5, -4]);
                let o = *self.r.pick(&["+", "-", "*", "/"]);
                let a = self.def(Ty::F64, &format!("arith.const {{value = {}.0}} : core.f64", k * d));
                let b = self.def(Ty::F64, &format!("arith.const {{value = {d}.0}} : core.f64"));
                let x = self.builtin(Ty::F64, &format!("Float::{o}"), &[(a, Ty::F64), (b, Ty::F64)]);
                self.vals.retain(|y| y.0 != x); // magnitudes stay small
                let y = self.val(Ty::F64);
                let o = *self.r.pick(&CMP_OPS);
                let args = if self.r.chance(1, 2) { [(x, Ty::F64), (y, Ty::F64)] } else { [(y, Ty::F64), (x, Ty::F64)] };
                self.builtin(Ty::I1, &format!("Float::{o}"), &args);
            }
            6 => {
                self.const_of(Ty::By);
            }
            7 | 8 => {
                let (a, b) = (self.val(Ty::By), self.val(Ty::By));
                let v = self.builtin(Ty::By, "__tribute_bytes_concat", &[(a, Ty::By), (b, Ty::By)]);
                if self.in_loop {
                    self.vals.retain(|y| y.0 != v); // no doubling round a loop
                    self.out_val(&v, Ty::By);
                }
            }
            9 => {
                let a = self.val(Ty::By);
                self.builtin(Ty::I32, "__tribute_bytes_len", &[(a, Ty::By)]);
            }
            10 | 11 => {
                // an element, mostly inside
                let a = self.val(Ty::By);
                let odd = self.r.chance(1, 8);
                let i = if odd && self.r.chance(2, 3) {
                    let k = *self.r.pick(&[i32::MIN, -1, i32::MIN + 1, 65536, 256]);
                    self.def(Ty::I32, &format!("arith.const {{value = {k}}} : core.i32"))
                } else {
                    self.small()
                };
                if odd {
                    let v = self.builtin(Ty::I32, "__bytes_get_or_panic", &[(a, Ty::By), (i, Ty::I32)]);
                    self.out_val(&v, Ty::I32);
                } else {
                    let n = self.builtin(Ty::I32, "__tribute_bytes_len", &[(a.clone(), Ty::By)]);
                    let c = self.builtin(Ty::I1, "Nat::<", &[(i.clone(), Ty::I32), (n, Ty::I32)]);
                    let (r, x, z) = (self.fresh(), self.fresh(), self.fresh());
                    self.line(&format!("{r} = scf.if {c} : core.i32 {{"));
                    self.line(&format!("{x} = func.call {a}, {i} {{callee = @__bytes_get_or_panic}} : core.i32"));
                    self.line(&format!("scf.yield {x}\n    }} {{\n    {z} = arith.const {{value = -1}} : core.i32\n    scf.yield {z}\n    }}"));
                    self.vals.push((r, Ty::I32));
                }
            }
            12 if !self.o.wasm => {
                let a = self.val(Ty::By);
                let n = self.builtin(Ty::I32, "__tribute_bytes_len", &[(a.clone(), Ty::By)]);
                let (s, e);
                if self.r.chance(1, 8) {
                    (s, e) = (self.small(), self.small());
                } else {
                    // start = x % (len + 1), end = start + y % (len - start + 1)
                    let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
                    let (x, y) = (self.val(Ty::I32), self.val(Ty::I32));
                    let n1 = self.def(Ty::I32, &format!("arith.addi {n}, {one} : core.i32"));
                    s = self.def(Ty::I32, &format!("arith.remui {x}, {n1} : core.i32"));
                    let left = self.def(Ty::I32, &format!("arith.subi {n1}, {s} : core.i32"));
                    let w = self.def(Ty::I32, &format!("arith.remui {y}, {left} : core.i32"));
                    e = self.def(Ty::I32, &format!("arith.addi {s}, {w} : core.i32"));
                }
                self.builtin(Ty::By, "__tribute_bytes_slice_or_panic", &[(a, Ty::By), (s, Ty::I32), (e, Ty::I32)]);
            }
            13 | 14 => {
                let (a, b) = (self.val(Ty::By), self.val(Ty::By));
                let (i, j);
                let n;
                if self.r.chance(1, 3) {
                    // twins: alike but for at most one byte, zero bytes anywhere, at different places of their strings
                    let k = self.r.range(2, 9);
                    let w: Vec<u8> = (0..k).map(|_| *self.r.pick(&[0u8, 0, 0x61, 0x80, 0xff])).collect();
                    let mut w2 = w.clone();
                    if self.r.chance(3, 4) {
                        let at = self.r.below(k);
                        w2[at] = *self.r.pick(&[0u8, 1, 0x62, 0x7f]);
                    }
                    let (pa, pb) = (self.r.below(3), self.r.below(3));
                    let hex = |pre: usize, w: &[u8]| -> String { "\\x2e".repeat(pre) + &w.iter().map(|b| format!("\\x{b:02x}")).collect::<String>() };
                    let x = self.def(Ty::By, &format!("adt.bytes_const {{value = b\"{}\"}} : core.bytes", hex(pa, &w)));
                    let y = self.def(Ty::By, &format!("adt.bytes_const {{value = b\"{}\"}} : core.bytes", hex(pb, &w2)));
                    let c = |g: &mut Self, v: usize| g.def(Ty::I32, &format!("arith.const {{value = {v}}} : core.i32"));
                    let (i, j, n) = (c(self, pa), c(self, pb), c(self, k));
                    let e = self.builtin(Ty::I1, "__tribute_bytes_range_equal", &[(x, Ty::By), (i, Ty::I32), (y, Ty::By), (j, Ty::I32), (n, Ty::I32)]);
                    self.out_val(&e, Ty::I1);
                    return;
                }
                if self.o.wasm || self.r.chance(2, 3) {
                    // ranges that both exist
                    let (s, l) = self.spot(&a);
                    let (t, m) = self.spot(&b);
                    let k = self.least(&l, &m);
                    (i, j) = (s, t);
                    n = if self.r.chance(1, 2) { k } else { let x = self.small(); self.least(&x, &k) };
                } else {
                    i = self.small();
                    j = self.small();
                    n = if self.r.chance(1, 5) { self.val(Ty::I32) } else { self.small() };
                }
                let e = self.builtin(Ty::I1, "__tribute_bytes_range_equal", &[(a, Ty::By), (i, Ty::I32), (b, Ty::By), (j, Ty::I32), (n, Ty::I32)]);
                self.out_val(&e, Ty::I1);
            }
            15 => {
                let a = self.val(Ty::By);
                let nl = self.val(Ty::I1);
                let v = self.fresh();
                self.line(&format!("{v} = func.call {a}, {nl} {{callee = @\"std::io::__tribute_io_write\"}} : core.nil"));
            }
            16 | 17 if !self.o.wasm => {
                let t = if self.r.chance(2, 3) { Ty::Li } else { Ty::Lb };
                let (e, es) = if t == Ty::Li { (Ty::I32, "core.i32") } else { (Ty::By, "core.bytes") };
                let l = self.val(t);
                match self.r.below(4) {
                    0 => {
                        let x = self.val(e);
                        let rhs = self.prepend(&x, &l, es);
                        self.def(t, &rhs);
                    }
                    1 if self.r.chance(1, 4) => {
                        let v = self.def(e, &format!("list.head {l} {{element_type = {es}}} : {es}"));
                        self.out_val(&v, e);
                    }
                    1 if self.r.chance(1, 3) => {
                        let v = self.def(t, &format!("list.tail {l} {{element_type = {es}}} : tribute_rt.anyref"));
                        self.out_val(&v, t);
                    }
                    _ => {
                        let c = self.def(Ty::I1, &format!("list.is_empty {l} {{element_type = {es}}} : core.i1"));
                        let (r, x) = (self.fresh(), self.fresh());
                        let rt = if self.r.chance(1, 2) { e } else { t };
                        let d = self.val(rt);
                        self.line(&format!("{r} = scf.if {c} : {} {{\n    scf.yield {d}\n    }} {{", rt.s()));
                        let o = if rt == t { "tail" } else { "head" };
                        self.line(&format!("{x} = list.{o} {l} {{element_type = {es}}} : {}", rt.s()));
                        self.line(&format!("scf.yield {x}\n    }}"));
                        self.vals.push((r, rt));
                    }
                }
            }
            _ => {
                let u = self.uniform();
                let from = UNIFORM.iter().find(|x| x.0 == u).unwrap().1;
                let v = self.val(u);
                self.def(from, &format!("core.unrealized_conversion_cast {v} : {}", from.s()));
            }
        }
    }
    fn uniform(&mut self) -> Ty {
        if self.o.wasm { *self.r.pick(&[Ty::Ai, Ty::Ai, Ty::Af, Ty::As, Ty::Ab]) } else { *self.r.pick(&[Ty::Ai, Ty::Al, Ty::Af, Ty::As, Ty::Ab]) }
    }
    /// An object of its own, or one from a constructor function, which hands its
    /// only reference to the caller.
    fn new_obj(&self, args: &str, ctor: &str, op: &str, attrs: &str) -> String {
        if self.o.ctors {
            format!("func.call {args} {{callee = @{ctor}}} : tribute_rt.anyref")
        } else {
            format!("{op} {args} {{{attrs}}} : tribute_rt.anyref")
        }
    }
    pub fn val(&mut self, t: Ty) -> String {
        let c: Vec<String> =
            self.vals.iter().filter(|(_, u)| *u == t).map(|(v, _)| v.clone()).collect();
        if c.is_empty() || self.r.chance(1, 6) {
            return self.const_of(t);
        }
        // prefer recent values
        let n = c.len();
        let i = if self.r.chance(1, 2) { n - 1 - self.r.below(n.min(3)) } else { self.r.below(n) };
        c[i].clone()
    }
    fn ty(&mut self) -> Ty {
        let mut ts = vec![Ty::I1, Ty::I32, Ty::I32, Ty::I64, Ty::I64];
        if self.o.flt {
            ts.push(Ty::F64);
        }
        if self.o.adt {
            ts.push(Ty::S);
            ts.push(Ty::L);
        }
        if self.o.heap {
            ts = if self.o.boxes { vec![Ty::I1, Ty::I32, Ty::I64, Ty::Rb, Ty::Rb] } else { vec![Ty::I1, Ty::I32, Ty::I64, Ty::Rb, Ty::Rn, Ty::Rp, Ty::Rn, Ty::Rp] };
        }
        if self.o.rich {
            ts = vec![Ty::I1, Ty::I32, Ty::I32, Ty::I64, Ty::S, Ty::By, Ty::By];
            if !self.o.wasm {
                ts.extend([Ty::Li, Ty::Lb]);
            }
            let u = self.uniform();
            ts.push(u);
        }
        *self.r.pick(&ts)
    }
    fn heap_ty(&mut self) -> Ty {
        if self.o.boxes { Ty::Rb } else { *self.r.pick(&[Ty::Rb, Ty::Rn, Ty::Rp]) }
    }
    /// type of a value carried round a loop or into a join
    fn carry_ty(&mut self) -> Ty {
        if self.o.rich && self.r.chance(2, 3) {
            return self.ty();
        }
        if self.o.heap && self.r.chance(3, 4) { self.heap_ty() } else { self.int_ty() }
    }
    fn int_ty(&mut self) -> Ty {
        *self.r.pick(&[Ty::I32, Ty::I64])
    }
    fn out_val(&mut self, v: &str, t: Ty) {
        // emit as an i64 to the external recorder
        let w = match t {
            Ty::I64 => v.to_string(),
            Ty::I32 => self.def(Ty::I64, &format!("arith.extend {v} : core.i64")),
            Ty::I1 => {
                let z = self.fresh();
                let l = format!("{z} = scf.if {v} : core.i64 {{");
                if self.o.cf && self.blocks > 0 && self.depth == 0 {
                    // structured op inside a cfg body is fine too
                }
                self.line(&l);
                let (a, b) = (self.fresh(), self.fresh());
                self.line(&format!("{a} = arith.const {{value = 1}} : core.i64"));
                self.line(&format!("scf.yield {a}"));
                self.line("} {");
                self.line(&format!("{b} = arith.const {{value = 0}} : core.i64"));
                self.line(&format!("scf.yield {b}"));
                self.line("}");
                self.vals.push((z.clone(), Ty::I64));
                z
            }
            // outside the profile of built-in operations every float is a small integer
            Ty::F64 if !self.o.rich => self.def(Ty::I64, &format!("arith.convert {v} : core.i64")),
            Ty::F64 => {
                // compare rather than convert: keeps every float finite and exact
                let k = self.def(Ty::F64, "arith.const {value = 3.0} : core.f64");
                let p = *self.r.pick(&["oeq", "olt", "ole", "ogt", "oge", "une"]);
                let c = self.def(Ty::I1, &format!("arith.cmpf {v}, {k} {{predicate = @{p}}} : core.i1"));
                return self.out_val(&c, Ty::I1);
            }
            Ty::S => {
                let f = self.r.below(5);
                let t = PAIR_FIELDS[f];
                let g = self.def(t, &format!("adt.struct_get {v} {{field = {f}, type = !Pair}} : {}", t.s()));
                return self.out_val(&g, t);
            }
            Ty::L => {
                let tag = self.r.pick(&VARIANTS).0;
                let g = self.def(Ty::I1, &format!("adt.variant_is {v} {{tag = @{tag}, type = !Lst}} : core.i1"));
                return self.out_val(&g, Ty::I1);
            }
            Ty::Rb => {
                let g = self.def(Ty::I32, &format!("tribute_rt.unbox_int {v} : core.i32"));
                return self.out_val(&g, Ty::I32);
            }
            Ty::Rn => {
                let tag = *self.r.pick(&["Leaf", "Tip", "Node"]);
                let g = self.def(Ty::I1, &format!("adt.variant_is {v} {{tag = @{tag}, type = !Tree}} : core.i1"));
                return self.out_val(&g, Ty::I1);
            }
            Ty::Rp => {
                let f = if self.o.ctors { *self.r.pick(&[0, 3]) } else { self.r.below(6) };
                let t = REC_FIELDS[f];
                let g = self.def(t, &format!("adt.struct_get {v} {{field = {f}, type = !Rec}} : {}", t.s()));
                return self.out_val(&g, t);
            }
            Ty::By => {
                let z = self.def(Ty::I32, "arith.const {value = 0} : core.i32");
                self.def(Ty::I32, &format!("func.call {v}, {z} {{callee = @out_bytes}} : core.i32"));
                return;
            }
            Ty::Li | Ty::Lb => {
                let f = if t == Ty::Li { "out_ints" } else { "out_strs" };
                let n = self.def(Ty::I32, &format!("func.call {v} {{callee = @{f}}} : core.i32"));
                return self.out_val(&n, Ty::I32);
            }
            _ => {
                let from = UNIFORM.iter().find(|u| u.0 == t).unwrap().1;
                let g = self.def(from, &format!("core.unrealized_conversion_cast {v} : {}", from.s()));
                return self.out_val(&g, from);
            }
        };
        if self.o.ext.is_empty() {
            return;
        }
        self.def(Ty::I64, &format!("func.call {w} {{callee = @vp_out}} : core.i64"));
    }
    fn region_yield(&mut self, t: Option<Ty>, n: usize) {
        let mark = self.vals.len();
        self.depth += 1;
        for _ in 0..n {
            self.stmt();
        }
        if self.escape() {
            self.depth -= 1;
            self.vals.truncate(mark);
            return;
        }
        match t {
            Some(t) => {
                let v = self.val(t);
                self.line(&format!("scf.yield {v}"));
            }
            None => self.line("scf.yield"),
        }
        self.depth -= 1;
        self.vals.truncate(mark);
    }
    /// leave the innermost loop, or start its next round, from inside a nested region
    fn escape(&mut self) -> bool {
        let Some((i, t, more)) = self.lp.last().cloned() else { return false };
        if !self.r.chance(1, 3) {
            return false;
        }
        if self.r.chance(1, 2) {
            let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
            let i1 = self.def(Ty::I32, &format!("arith.addi {i}, {one} : core.i32"));
            let a = self.val(t);
            let rest = self.carried(a, t, &more);
            self.line(&if self.o.wasm { format!("scf.continue {i1}") } else { format!("scf.continue {i1}, {rest}") });
        } else {
            let a = self.val(t);
            self.line(&format!("scf.break {a}"));
        }
        true
    }
    pub fn stmt(&mut self) {
        self.budget -= 1;
        if self.budget < 0 {
            return;
        }
        let mut k = self.r.below(100);
        if self.o.call_heavy && self.r.chance(1, 3) {
            k = 90;
        }
        if self.o.heap && self.r.chance(2, 5) {
            return self.heap_stmt();
        }
        if self.o.rich && self.r.chance(3, 5) {
            return self.rich_stmt();
        }
        if self.o.control_heavy && self.r.chance(2, 5) {
            k = *self.r.pick(&[69, 69, 79, 83]);
        }
        match k {
            0..=29 => {
                let t = if self.o.i1_arith && self.r.chance(1, 8) { Ty::I1 } else { self.int_ty() };
                let mut ops = vec!["addi", "subi", "muli", "and", "or", "xor"];
                if t == Ty::I1 {
                    ops = vec!["and", "or", "xor"];
                } else if self.o.shifts {
                    ops.extend(["shl", "shr", "shru"]);
                }
                let op = *self.r.pick(&ops);
                let a = self.val(t);
                let b = if op.starts_with("sh") {
                    let s = self.r.below(t.bits() as usize);
                    self.def(t, &format!("arith.const {{value = {s}}} : {}", t.s()))
                } else if self.r.chance(1, 3) {
                    self.const_of(t)
                } else {
                    self.val(t)
                };
                let (a, b) = if !op.starts_with("sh") && self.r.chance(1, 4) { (b, a) } else { (a, b) };
                self.def(t, &format!("arith.{op} {a}, {b} : {}", t.s()));
            }
            30..=36 => {
                let t = self.int_ty();
                let op = *self.r.pick(&["divsi", "divui", "remsi", "remui"]);
                let a = self.val(t);
                if self.o.trap_div && self.r.chance(1, 8) {
                    let b = self.val(t);
                    let v = self.def(t, &format!("arith.{op} {a}, {b} : {}", t.s()));
                    self.out_val(&v, t);
                } else {
                    // a divisor that is a positive constant, or odd and non-negative
                    let b = if self.r.chance(2, 3) {
                        let c = *self.r.pick(&[1i64, 2, 3, 7, 10, 255, 65536]);
                        self.def(t, &format!("arith.const {{value = {c}}} : {}", t.s()))
                    } else {
                        let x = self.val(t);
                        let m = if t == Ty::I32 { i32::MAX as i64 } else { i64::MAX };
                        let c1 = self.def(t, &format!("arith.const {{value = {m}}} : {}", t.s()));
                        let c2 = self.def(t, &format!("arith.const {{value = 1}} : {}", t.s()));
                        let y = self.def(t, &format!("arith.and {x}, {c1} : {}", t.s()));
                        self.def(t, &format!("arith.or {y}, {c2} : {}", t.s()))
                    };
                    self.def(t, &format!("arith.{op} {a}, {b} : {}", t.s()));
                }
            }
            37..=45 => {
                let t = self.int_ty();
                let p = *self.r.pick(&["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]);
                let a = self.val(t);
                let b = self.val(t);
                self.def(Ty::I1, &format!("arith.cmpi {a}, {b} {{predicate = @{p}}} : core.i1"));
            }
            46..=50 => {
                if self.o.casts {
                    match self.r.below(2) {
                        0 => {
                            let a = self.val(Ty::I32);
                            self.def(Ty::I64, &format!("arith.extend {a} : core.i64"));
                        }
                        _ => {
                            let a = self.val(Ty::I64);
                            self.def(Ty::I32, &format!("arith.trunc {a} : core.i32"));
                        }
                    }
                }
            }
            51..=55 if self.o.flt => {
                if self.r.chance(1, 2) {
                    // small magnitudes only: operands are fresh constants
                    let op = *self.r.pick(&["addf", "subf", "mulf"]);
                    let a = self.const_of(Ty::F64);
                    let b = self.const_of(Ty::F64);
                    let v = self.fresh();
                    self.line(&format!("{v} = arith.{op} {a}, {b} : core.f64"));
                    let p = *self.r.pick(&["oeq", "olt", "ole", "ogt", "oge", "une"]);
                    let c = self.val(Ty::F64);
                    self.def(Ty::I1, &format!("arith.cmpf {v}, {c} {{predicate = @{p}}} : core.i1"));
                } else {
                    let a = self.const_of(Ty::F64);
                    let v = self.fresh();
                    self.line(&format!("{v} = arith.negf {a} : core.f64"));
                    self.vals.push((v, Ty::F64));
                }
            }
            56..=58 if self.o.negi => {
                let t = self.int_ty();
                let a = self.val(t);
                self.def(t, &format!("arith.negi {a} : {}", t.s()));
            }
            59..=68 if self.o.adt => match self.r.below(5) {
                0 => {
                    self.const_of(Ty::S);
                }
                1 => {
                    self.const_of(Ty::L);
                }
                2 => {
                    let v = self.val(Ty::S);
                    let f = self.r.below(5);
                    let t = PAIR_FIELDS[f];
                    self.def(t, &format!("adt.struct_get {v} {{field = {f}, type = !Pair}} : {}", t.s()));
                }
                3 if self.o.struct_set => {
                    let v = self.val(Ty::S);
                    let f = self.r.below(5);
                    let t = PAIR_FIELDS[f];
                    let w = self.val(t);
                    self.line(&format!("adt.struct_set {v}, {w} {{field = {f}, type = !Pair}}"));
                }
                _ => self.match_enum(),
            },
            69..=78 if self.depth < 3 || (self.depth < 6 && self.o.control_heavy && self.r.chance(1, 2)) => {
                let c = self.val(Ty::I1);
                let res = if self.r.chance(3, 4) { Some(self.ty()) } else { None };
                let (n1, n2) = (self.r.below(4), self.r.below(4));
                let v = self.fresh();
                match res {
                    Some(t) => self.line(&format!("{v} = scf.if {c} : {} {{", t.s())),
                    None => self.line(&format!("scf.if {c} {{")),
                }
                self.region_yield(res, n1);
                self.line("} {");
                self.region_yield(res, n2);
                self.line("}");
                if let Some(t) = res {
                    self.vals.push((v, t));
                }
            }
            79..=82 if self.o.loops && self.depth < 2 + self.o.control_heavy as usize => self.gen_loop(),
            83..=85 if self.o.switch && self.depth < 2 + self.o.control_heavy as usize => {
                let d = self.val(Ty::I32);
                let wide = self.r.chance(1, 8);
                let d = if !wide && self.r.chance(1, 2) {
                    let m = self.def(Ty::I32, "arith.const {value = 3} : core.i32");
                    self.def(Ty::I32, &format!("arith.and {d}, {m} : core.i32"))
                } else if wide {
                    // one of many cases, or just past them
                    let k = self.r.below(10);
                    self.def(Ty::I32, &format!("arith.const {{value = {k}}} : core.i32"))
                } else {
                    d
                };
                self.line(&format!("scf.switch {d} {{"));
                // repeated values: the first case wins; the default may stand anywhere
                let mut cases: Vec<i64> = vec![0, 1, 2, 3, -1, 7];
                if wide {
                    cases.extend([4, 5, 6, 8]);
                }
                let n = if wide { self.r.range(5, 9) } else { self.r.range(1, 4) };
                let again = !wide && self.r.chance(1, 3);
                let at = if self.r.chance(4, 5) { if self.r.chance(1, 3) { self.r.below(n) } else { n } } else { n + 1 };
                for k in 0..n {
                    if at == k {
                        self.line("scf.default {");
                        let m = self.r.range(0, 2);
                        self.region_out(m);
                        self.line("}");
                    }
                    let i = self.r.below(cases.len());
                    let c = if again { cases[i % 2] } else { cases.swap_remove(i) };
                    self.line(&format!("scf.case {{value = {c}}} {{"));
                    let m = self.r.range(0, 2);
                    self.region_out(m);
                    self.line("}");
                }
                if at == n {
                    self.line("scf.default {");
                    let m = self.r.range(0, 2);
                    self.region_out(m);
                    self.line("}");
                }
                self.line("}");
            }
            86..=94 if self.o.calls => self.gen_call(),
            _ => {
                if self.vals.is_empty() {
                    return;
                }
                let n = self.vals.len();
                let (v, t) = self.vals[n - 1 - self.r.below(n.min(5))].clone();
                self.out_val(&v, t);
            }
        }
    }
    /// arguments for a call of a CPS function, often the same value twice
    fn cps_args(&mut self, s: &Sig, fuel: &str) -> String {
        let mut a: Vec<(String, Ty)> = vec![];
        for (i, t) in s.params.clone().into_iter().enumerate() {
            let v = if i == 0 && s.recursive {
                fuel.to_string()
            } else {
                let same: Vec<String> = a.iter().filter(|x| x.1 == t).map(|x| x.0.clone()).collect();
                if !same.is_empty() && self.r.chance(1, 2) { self.r.pick(&same).clone() } else { self.val(t) }
            };
            a.push((v, t));
        }
        a.into_iter().map(|x| x.0).collect::<Vec<_>>().join(", ")
    }
    fn cps_call(&mut self) {
        let s = self.r.pick(&self.cps.clone()).clone();
        let f = self.r.below(4);
        let f = self.def(Ty::I32, &format!("arith.const {{value = {f}}} : core.i32"));
        let a = self.cps_args(&s, &f);
        self.line(&format!("func.call {a} {{callee = @{}}}", s.name));
    }
    /// end of a CPS function: return, or hand over to another CPS function
    fn cps_leave(&mut self, me: &Sig, fuel: Option<&str>) {
        let mut c: Vec<Sig> = self.cps.clone();
        if fuel.is_some() {
            c = vec![me.clone(), me.clone()];
        }
        if c.is_empty() || fuel.is_none() && self.r.chance(1, 4) {
            self.line("func.return");
            return;
        }
        let s = self.r.pick(&c).clone();
        let f = match fuel {
            Some(f) => f.to_string(),
            None => {
                let n = self.r.below(3);
                self.def(Ty::I32, &format!("arith.const {{value = {n}}} : core.i32"))
            }
        };
        let a = self.cps_args(&s, &f);
        if self.r.chance(1, 3) {
            let mut t = vec!["core.nil"];
            t.extend(s.params.iter().map(|x| x.s()));
            let t = format!("core.func({})", t.join(", "));
            let v = self.fresh();
            self.line(&format!("{v} = func.constant {{func_ref = @{}}} : {t}", s.name));
            let a = if a.is_empty() { a } else { format!(", {a}") };
            self.line(&format!("func.tail_call_indirect {v}{a} {{func.indirect_call_signature = {t}, tribute.calling_convention = 2}}"));
        } else {
            self.line(&format!("func.tail_call {a} {{callee = @{}, tribute.calling_convention = 2}}", s.name));
        }
    }
    fn cps_function(&mut self, s: Sig) {
        self.reset();
        self.budget = self.o.size as isize;
        let ps: Vec<String> = s.params.iter().enumerate().map(|(i, t)| format!("%p{i}: {}", t.s())).collect();
        let _ = writeln!(self.out, "  func.func @{}({}) -> core.nil attributes {{tribute.calling_convention = 2}} {{", s.name, ps.join(", "));
        for (i, t) in s.params.iter().enumerate() {
            if !(s.recursive && i == 0) {
                self.vals.push((format!("%p{i}"), *t));
            }
        }
        self.cur = None;
        self.ncps = 1;
        self.line("^en:");
        for _ in 0..self.r.range(0, 3) {
            self.stmt();
        }
        if s.recursive {
            let z = self.def(Ty::I32, "arith.const {value = 0} : core.i32");
            let c = self.def(Ty::I1, &format!("arith.cmpi %p0, {z} {{predicate = @sgt}} : core.i1"));
            let mark = self.vals.len();
            self.line(&format!("cf.cond_br {c} [^rec, ^base]"));
            self.line("^rec:");
            for _ in 0..self.r.range(0, 2) {
                self.stmt();
            }
            let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
            let f1 = self.def(Ty::I32, &format!("arith.subi %p0, {one} : core.i32"));
            self.cps_leave(&s, Some(&f1));
            self.vals.truncate(mark);
            self.line("^base:");
        } else if self.r.chance(1, 2) {
            let c = self.val(Ty::I1);
            let mark = self.vals.len();
            self.line(&format!("cf.cond_br {c} [^th, ^el]"));
            self.line("^th:");
            for _ in 0..self.r.range(0, 2) {
                self.stmt();
            }
            self.cps_leave(&s, None);
            self.vals.truncate(mark);
            self.line("^el:");
        }
        for _ in 0..self.r.range(0, 2) {
            self.stmt();
        }
        self.cps_leave(&s, None);
        self.out.push_str("  }\n");
    }
    fn reset(&mut self) {
        self.vals.clear();
        self.next = 0;
        self.blocks = 0;
        self.depth = 0;
        self.in_loop = false;
        self.lp.clear();
        self.ncps = 2;
    }
    fn heap_stmt(&mut self) {
        if !self.cps.is_empty() && self.ncps > 0 && !self.in_loop && self.r.chance(1, 3) {
            self.ncps -= 1;
            return self.cps_call();
        }
        match self.r.below(8) {
            0 => {
                let t = self.heap_ty();
                self.const_of(t);
            }
            2..=4 if self.o.boxes => {
                let v = self.val(Ty::Rb);
                self.out_val(&v, Ty::Rb);
            }
            5..=7 if self.o.boxes => self.gen_call(),
            1 => {
                let v = self.val(Ty::Rb);
                self.def(Ty::I32, &format!("tribute_rt.unbox_int {v} : core.i32"));
            }
            2 | 3 => {
                let v = self.val(Ty::Rp);
                let f = if self.o.ctors { *self.r.pick(&[0, 3]) } else { self.r.below(6) };
                let t = REC_FIELDS[f];
                let o = if self.r.chance(1, 3) {
                    let o = self.fresh();
                    self.line(&format!("{o} = core.unrealized_conversion_cast {v} : !Rec"));
                    o
                } else {
                    v
                };
                self.def(t, &format!("adt.struct_get {o} {{field = {f}, type = !Rec}} : {}", t.s()));
            }
            4 => {
                let (v, t) = if self.r.chance(1, 2) { (self.val(Ty::Rp), Ty::Rp) } else { (self.val(Ty::Rn), Ty::Rn) };
                self.out_val(&v, t);
            }
            5 if self.o.calls => self.gen_call(),
            _ if self.depth < 3 => self.match_tree(),
            _ => {
                let v = self.val(Ty::Rn);
                self.out_val(&v, Ty::Rn);
            }
        }
    }
    fn match_tree(&mut self) {
        let v = self.val(Ty::Rn);
        let c = self.fresh();
        let tag = *self.r.pick(&["Node", "Node", "Tip", "Leaf"]);
        self.line(&format!("{c} = adt.variant_is {v} {{tag = @{tag}, type = !Tree}} : core.i1"));
        let t = self.ty();
        let r = self.fresh();
        self.line(&format!("{r} = scf.if {c} : {} {{", t.s()));
        let mark = self.vals.len();
        self.depth += 1;
        if tag != "Leaf" {
            let k = if self.r.chance(2, 3) {
                let k = self.fresh();
                self.line(&format!("{k} = adt.variant_cast {v} {{tag = @{tag}, type = !Tree}} : tribute_rt.anyref"));
                k
            } else {
                v.clone()
            };
            let fs: &[Ty] = if tag == "Tip" { &[Ty::Rb] } else { &[Ty::Rn, Ty::I64, Ty::Rn] };
            for _ in 0..self.r.range(1, 3) {
                let f = self.r.below(fs.len());
                let t = fs[f];
                if self.o.ctors && t != Ty::I64 {
                    continue; // reference fields of constructor objects are only dropped
                }
                self.def(t, &format!("adt.variant_get {k} {{field = {f}, tag = @{tag}, type = !Tree}} : {}", t.s()));
            }
        }
        for _ in 0..self.r.below(3) {
            self.stmt();
        }
        if !self.escape() {
            let w = self.val(t);
            self.line(&format!("scf.yield {w}"));
        }
        self.vals.truncate(mark);
        self.line("} {");
        for _ in 0..self.r.below(2) {
            self.stmt();
        }
        if !self.escape() {
            let w = self.val(t);
            self.line(&format!("scf.yield {w}"));
        }
        self.vals.truncate(mark);
        self.depth -= 1;
        self.line("}");
        self.vals.push((r, t));
    }
    fn region_out(&mut self, n: usize) {
        let mark = self.vals.len();
        self.depth += 1;
        for _ in 0..n {
            self.stmt();
        }
        let t = self.int_ty();
        let v = self.val(t);
        self.out_val(&v, t);
        if !self.escape() {
            self.line("scf.yield");
        }
        self.depth -= 1;
        self.vals.truncate(mark);
    }
    fn match_enum(&mut self) {
        let v = self.val(Ty::L);
        let (tag, ts) = VARIANTS[self.r.range(1, 3)];
        let f = self.r.below(ts.len());
        let t = ts[f];
        let c = self.fresh();
        self.line(&format!("{c} = adt.variant_is {v} {{tag = @{tag}, type = !Lst}} : core.i1"));
        let r = self.fresh();
        self.line(&format!("{r} = scf.if {c} : {} {{", t.s()));
        let (k, g) = (self.fresh(), self.fresh());
        self.line(&format!("{k} = adt.variant_cast {v} {{tag = @{tag}, type = !Lst}} : !Lst"));
        self.line(&format!("{g} = adt.variant_get {k} {{field = {f}, tag = @{tag}, type = !Lst}} : {}", t.s()));
        self.line(&format!("scf.yield {g}"));
        self.line("} {");
        let d = self.fresh();
        let p = if t == Ty::F64 { ".0" } else { "" };
        self.line(&format!("{d} = arith.const {{value = 41{p}}} : {}", t.s()));
        self.line(&format!("scf.yield {d}"));
        self.line("}");
        self.vals.push((r.clone(), t));
        if self.r.chance(1, 2) {
            self.out_val(&r, t);
        }
    }
    /// what a loop carries besides its counter: the accumulator and the rest, the same value more than once at times
    fn carried(&mut self, a: String, t: Ty, more: &[Ty]) -> String {
        let mut vs = vec![(a, t)];
        for &u in more {
            let same: Vec<String> = vs.iter().filter(|(_, w)| *w == u).map(|(v, _)| v.clone()).collect();
            let v = if !same.is_empty() && self.r.chance(1, 3) { self.r.pick(&same).clone() } else { self.val(u) };
            vs.push((v, u));
        }
        vs.into_iter().map(|(v, _)| v).collect::<Vec<_>>().join(", ")
    }
    fn gen_loop(&mut self) {
        let t = self.carry_ty();
        let mut more = vec![];
        if !self.o.wasm && self.r.chance(1, 3) {
            for _ in 0..self.r.range(1, 3) {
                let u = if self.r.chance(1, 2) { t } else { self.carry_ty() };
                more.push(u);
            }
        }
        let n = self.r.range(0, 4);
        let i0 = self.fresh();
        self.line(&format!("{i0} = arith.const {{value = 0}} : core.i32"));
        let a0 = self.val(t);
        let lim = self.fresh();
        self.line(&format!("{lim} = arith.const {{value = {n}}} : core.i32"));
        let r = self.fresh();
        let (i, acc, c) = (self.fresh(), self.fresh(), self.fresh());
        let bb = self.blocks;
        self.blocks += 1;
        let one_carried = self.o.wasm;
        let inits = if one_carried {
            i0.clone()
        } else {
            let rest = self.carried(a0.clone(), t, &more);
            format!("{i0}, {rest}")
        };
        let extra: Vec<(String, Ty)> = more.iter().map(|u| (self.fresh(), *u)).collect();
        let quiet = !self.o.wasm && self.r.chance(1, 5); // a loop without a result
        if quiet {
            self.line(&format!("scf.loop {inits} {{"));
        } else {
            self.line(&format!("{r} = scf.loop {inits} : {} {{", t.s()));
        }
        if one_carried {
            self.line(&format!("^lp{bb}({i}: core.i32):"));
        } else {
            let rest: String = extra.iter().map(|(v, u)| format!(", {v}: {}", u.s())).collect();
            self.line(&format!("^lp{bb}({i}: core.i32, {acc}: {}{rest}):", t.s()));
        }
        let mark = self.vals.len();
        self.vals.push((i.clone(), Ty::I32));
        if !one_carried {
            self.vals.push((acc.clone(), t));
            self.vals.extend(extra);
        }
        self.depth += 1;
        let was = self.in_loop;
        self.in_loop = true;
        let outer = std::mem::take(&mut self.lp);
        for _ in 0..self.r.below(2) {
            self.stmt();
        }
        self.lp = outer;
        self.line(&format!("{c} = arith.cmpi {i}, {lim} {{predicate = @slt}} : core.i1"));
        self.line(&format!("scf.if {c} {{"));
        let m2 = self.vals.len();
        self.lp.push((i.clone(), t, more.clone()));
        for _ in 0..self.r.range(1, 3) {
            self.stmt();
        }
        self.lp.pop();
        let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
        let i1 = self.def(Ty::I32, &format!("arith.addi {i}, {one} : core.i32"));
        let a1 = self.val(t);
        let rest = self.carried(a1, t, &more);
        self.line(&if one_carried { format!("scf.continue {i1}") } else { format!("scf.continue {i1}, {rest}") });
        self.vals.truncate(m2);
        self.line("} {");
        let outer = std::mem::take(&mut self.lp);
        for _ in 0..self.r.below(2) {
            self.stmt();
        }
        self.lp = outer;
        let b = self.val(t);
        self.line(&format!("scf.break {b}"));
        self.line("}");
        self.line("func.unreachable");
        self.line("}");
        self.in_loop = was;
        self.depth -= 1;
        self.vals.truncate(mark);
        if !quiet {
            self.vals.push((r, t));
        }
    }
    fn args_for(&mut self, s: &Sig) -> Vec<String> {
        let mut a = vec![];
        for (i, t) in s.params.clone().into_iter().enumerate() {
            if s.recursive && i == 0 {
                let n = self.r.below(4);
                a.push(self.def(Ty::I32, &format!("arith.const {{value = {n}}} : core.i32")));
            } else {
                a.push(self.val(t));
            }
        }
        a
    }
    fn gen_call(&mut self) {
        if self.sigs.is_empty() || (self.in_loop && self.r.chance(1, 2)) {
            return;
        }
        let s = self.r.pick(&self.sigs.clone()).clone();
        let a = self.args_for(&s);
        if self.o.indirect && self.r.chance(1, if self.o.inl { 12 } else { 4 }) {
            let f = self.fresh();
            let ps: Vec<&str> = std::iter::once(s.ret.s()).chain(s.params.iter().map(|t| t.s())).collect();
            let fty = format!("core.func({})", ps.join(", "));
            self.line(&format!("{f} = func.constant {{func_ref = @{}}} : {fty}", s.name));
            let all = std::iter::once(f).chain(a).collect::<Vec<_>>().join(", ");
            self.def(s.ret, &format!("func.call_indirect {all} : {}", s.ret.s()));
        } else {
            let sep = if a.is_empty() { "" } else { " " };
            self.def(s.ret, &format!("func.call {}{sep}{{callee = @{}}} : {}", a.join(", "), s.name, s.ret.s()));
        }
    }
    fn function(&mut self, s: Sig, entry: bool) {
        self.reset();
        self.budget = (self.o.size * if entry { 2 } else { 1 }) as isize;
        let ps: Vec<String> =
            s.params.iter().enumerate().map(|(i, t)| format!("%p{i}: {}", t.s())).collect();
        let _ = writeln!(self.out, "  func.func @{}({}) -> {} {{", s.name, ps.join(", "), s.ret.s());
        for (i, t) in s.params.iter().enumerate() {
            if !(s.recursive && i == 0) {
                self.vals.push((format!("%p{i}"), *t));
            }
        }
        self.cur = Some(s.clone());
        let shape = self.r.below(10);
        if s.recursive {
            // if fuel > 0 { .. f(fuel-1, ..) } else { .. }
            let tail = self.o.tail && self.r.chance(1, 2);
            if tail && !self.o.wasm {
                self.line("^en:");
            }
            let z = self.fresh();
            self.line(&format!("{z} = arith.const {{value = 0}} : core.i32"));
            let c = self.fresh();
            self.line(&format!("{c} = arith.cmpi %p0, {z} {{predicate = @sgt}} : core.i1"));
            let mark = self.vals.len();
            if tail && self.o.wasm {
                self.line(&format!("scf.if {c} {{"));
            } else if tail {
                self.line(&format!("cf.cond_br {c} [^rec, ^base]"));
                self.line("^rec:");
            } else {
                self.line(&format!("%rr = scf.if {c} : {} {{", s.ret.s()));
            }
            for _ in 0..self.r.range(1, 3) {
                self.stmt();
            }
            let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
            let f1 = self.def(Ty::I32, &format!("arith.subi %p0, {one} : core.i32"));
            let mut a = vec![f1];
            for t in s.params[1..].to_vec() {
                a.push(self.val(t));
            }
            if tail {
                self.line(&format!("func.tail_call {} {{callee = @{}}}", a.join(", "), s.name));
                self.vals.truncate(mark);
                self.line(if self.o.wasm { "} {" } else { "^base:" });
                for _ in 0..self.r.range(1, 3) {
                    self.stmt();
                }
                let v = self.val(s.ret);
                self.line(&format!("func.return {v}"));
                if self.o.wasm {
                    self.line("}\n    func.unreachable");
                }
            } else {
                self.def(s.ret, &format!("func.call {} {{callee = @{}}} : {}", a.join(", "), s.name, s.ret.s()));
                for _ in 0..self.r.range(0, 2) {
                    self.stmt();
                }
                let v = self.val(s.ret);
                self.line(&format!("scf.yield {v}"));
                self.vals.truncate(mark);
                self.line("} {");
                let v = self.val(s.ret);
                self.line(&format!("scf.yield {v}"));
                self.line("}");
                self.line("func.return %rr");
            }
        } else if self.o.inl && self.inl_body(&s) {
        } else if shape < 3 && self.o.cf {
            self.cfg_body(&s);
        } else if shape == 3 && self.o.tail && !self.sigs.is_empty() {
            let n = self.budget.max(0) as usize / 2;
            for _ in 0..n {
                self.stmt();
            }
            let same: Vec<Sig> = self.sigs.iter().filter(|t| t.ret == s.ret).cloned().collect();
            if same.is_empty() || entry {
                let v = self.val(s.ret);
                self.line(&format!("func.return {v}"));
            } else {
                let t = self.r.pick(&same).clone();
                let a = self.args_for(&t);
                let sep = if a.is_empty() { "" } else { " " };
                self.line(&format!("func.tail_call {}{sep}{{callee = @{}}}", a.join(", "), t.name));
            }
        } else {
            while self.budget > 0 {
                self.stmt();
            }
            if entry {
                for _ in 0..3 {
                    if self.vals.is_empty() {
                        break;
                    }
                    let i = self.r.below(self.vals.len());
                    let (v, t) = self.vals[i].clone();
                    self.out_val(&v, t);
                }
            }
            let v = self.val(s.ret);
            self.line(&format!("func.return {v}"));
        }
        self.out.push_str("  }\n");
    }
    /// `func.tail_call` or, when tail calls are off or nothing fits, `func.return`
    fn leave(&mut self, s: &Sig) {
        let same: Vec<Sig> = self.sigs.iter().filter(|t| t.ret == s.ret).cloned().collect();
        if !self.o.tail || same.is_empty() || self.r.chance(1, 4) {
            let v = self.val(s.ret);
            self.line(&format!("func.return {v}"));
        } else {
            let t = self.r.pick(&same).clone();
            let a = self.args_for(&t);
            let sep = if a.is_empty() { "" } else { " " };
            self.line(&format!("func.tail_call {}{sep}{{callee = @{}}}", a.join(", "), t.name));
        }
    }
    /// bodies for the inliner: wrappers, tail calls from straight-line code, from CFG
    /// blocks and from the branches of a conditional
    fn inl_body(&mut self, s: &Sig) -> bool {
        if s.name == "entry" {
            for _ in 0..self.r.range(3, 6) {
                self.gen_call();
                if let Some((v, t)) = self.vals.last().cloned()
                    && self.r.chance(1, 2)
                {
                    self.out_val(&v, t);
                }
                if self.r.chance(1, 3) {
                    self.stmt();
                }
            }
            self.leave(s);
            return true;
        }
        match self.r.below(6) {
            0 => {
                for _ in 0..self.r.range(0, 2) {
                    self.stmt();
                }
                self.leave(s);
            }
            1 => {
                // a chain of calls, each result passed on (or dropped)
                for _ in 0..self.r.range(1, 4) {
                    self.gen_call();
                }
                self.leave(s);
            }
            2 => {
                self.line("^en:");
                let c = self.val(Ty::I1);
                self.line(&format!("cf.cond_br {c} [^th, ^el]"));
                let mark = self.vals.len();
                for l in ["^th", "^el"] {
                    self.line(&format!("{l}:"));
                    for _ in 0..self.r.range(0, 2) {
                        self.stmt();
                    }
                    self.leave(s);
                    self.vals.truncate(mark);
                }
            }
            3 if self.o.tail => {
                let c = self.val(Ty::I1);
                self.line(&format!("scf.if {c} {{"));
                let mark = self.vals.len();
                for i in 0..2 {
                    for _ in 0..self.r.range(0, 2) {
                        self.stmt();
                    }
                    self.leave(s);
                    self.vals.truncate(mark);
                    self.line(if i == 0 { "} {" } else { "}" });
                }
                self.line("func.unreachable");
            }
            _ => return false,
        }
        true
    }
    /// explicit control flow: a diamond or a counted loop over cf blocks
    fn cfg_body(&mut self, s: &Sig) {
        self.line("^en:");
        for _ in 0..self.r.range(1, 4) {
            self.stmt();
        }
        if self.r.chance(1, 2) {
            let c = self.val(Ty::I1);
            let (t1, t2) = (self.carry_ty(), self.carry_ty());
            self.line(&format!("cf.cond_br {c} [^th, ^el]"));
            let mark = self.vals.len();
            for (l, _) in [("^th", 0), ("^el", 1)] {
                self.line(&format!("{l}:"));
                for _ in 0..self.r.range(0, 3) {
                    self.stmt();
                }
                let (a, b) = (self.val(t1), self.val(t2));
                self.line(&format!("cf.br {a}, {b} [^mg]"));
                self.vals.truncate(mark);
            }
            self.line(&format!("^mg(%m0: {}, %m1: {}):", t1.s(), t2.s()));
            self.vals.push(("%m0".into(), t1));
            self.vals.push(("%m1".into(), t2));
        } else {
            let t = self.carry_ty();
            let n = self.r.range(0, 4);
            let z = self.def(Ty::I32, "arith.const {value = 0} : core.i32");
            let one = self.def(Ty::I32, "arith.const {value = 1} : core.i32");
            let lim = self.def(Ty::I32, &format!("arith.const {{value = {n}}} : core.i32"));
            let a0 = self.val(t);
            self.line(&format!("cf.br {z}, {a0} [^hd]"));
            self.line(&format!("^hd(%hi: core.i32, %ha: {}):", t.s()));
            self.vals.push(("%hi".into(), Ty::I32));
            self.vals.push(("%ha".into(), t));
            let c = self.def(Ty::I1, &format!("arith.cmpi %hi, {lim} {{predicate = @slt}} : core.i1"));
            self.line(&format!("cf.cond_br {c} [^bd, ^ex]"));
            let mark = self.vals.len();
            self.line("^bd:");
            let was = self.in_loop;
            self.in_loop = true;
            for _ in 0..self.r.range(1, 3) {
                self.stmt();
            }
            self.in_loop = was;
            let i1 = self.def(Ty::I32, &format!("arith.addi %hi, {one} : core.i32"));
            let a1 = self.val(t);
            self.line(&format!("cf.br {i1}, {a1} [^hd]"));
            self.vals.truncate(mark);
            self.line("^ex:");
        }
        for _ in 0..self.r.range(0, 3) {
            self.stmt();
        }
        let v = self.val(s.ret);
        self.line(&format!("func.return {v}"));
    }
    /// g(fuel, x) and h(fuel, x) call each other, fuel decreasing.
    fn mutual(&mut self, i: usize) {
        let t = self.int_ty();
        let names = [format!("g{i}"), format!("h{i}")];
        let tails = [self.r.chance(1, 2) && self.o.tail, self.r.chance(1, 2) && self.o.tail];
        for j in 0..2 {
            let (me, other) = (&names[j].clone(), &names[1 - j].clone());
            let k = self.r.range(1, 9);
            let op = *self.r.pick(&["addi", "muli", "xor", "subi"]);
            let ts = t.s();
            let _ = writeln!(self.out, "  func.func @{me}(%p0: core.i32, %p1: {ts}) -> {ts} {{\n    ^en:\n    %z = arith.const {{value = 0}} : core.i32\n    %c = arith.cmpi %p0, %z {{predicate = @sle}} : core.i1\n    cf.cond_br %c [^base, ^rec]\n    ^base:\n    func.return %p1\n    ^rec:\n    %one = arith.const {{value = 1}} : core.i32\n    %f = arith.subi %p0, %one : core.i32\n    %k = arith.const {{value = {k}}} : {ts}\n    %x = arith.{op} %p1, %k : {ts}");
            if tails[j] {
                let _ = writeln!(self.out, "    func.tail_call %f, %x {{callee = @{other}}}\n  }}");
            } else {
                let _ = writeln!(self.out, "    %y = func.call %f, %x {{callee = @{other}}} : {ts}\n    %w = arith.addi %y, %k : {ts}\n    func.return %w\n  }}");
            }
        }
        for n in names {
            self.sigs.push(Sig { name: n, params: vec![Ty::I32, t], ret: t, recursive: true });
        }
    }
    /// A module with `funcs` helpers and an entry function `@entry`.
    pub fn module(&mut self) -> (String, Sig) {
        self.out.clear();
        self.out.push_str("core.module @gen {\n");
        if self.o.adt {
            let _ = writeln!(self.out, "  !Pair = {STRUCT_TY}\n  !Lst = {ENUM_TY}");
        }
        if self.o.heap {
            // objects from constructors: the declared reference fields are the ones
            // the generated release functions release
            let fld = |t: &str| if self.o.ctors { t.replace("tribute_rt.anyref", "core.ptr") } else { t.into() };
            let _ = writeln!(self.out, "  !Tree = {}\n  !Rec = {}", fld(TREE_TY), fld(REC_TY));
            if self.o.ctors {
                // every second time as the front end writes them: of the object's own type, cast when returned
                let cast = self.r.chance(1, 2);
                for l in CTORS.lines() {
                    if !cast || !l.contains("%r = adt.") {
                        let l = if cast { l.replace("func.return %r", "func.return %q") } else { l.into() };
                        let _ = writeln!(self.out, "{l}");
                    } else {
                        let t = if l.contains("!Rec") { "!Rec" } else { "!Tree" };
                        let l = l.replace(": tribute_rt.anyref", &format!(": {t}"));
                        let _ = writeln!(self.out, "{l}\n    %q = core.unrealized_conversion_cast %r : tribute_rt.anyref");
                    }
                }
            }
        }
        if !self.o.ext.is_empty() {
            let _ = writeln!(
                self.out,
                "  func.func @vp_out(%a: core.i64) -> core.i64 attributes {{abi = \"{}\"}} {{\n    func.unreachable\n  }}",
                self.o.ext
            );
        }
        if self.o.rich {
            let d = builtin_decls(self.o.wasm);
            self.out.push_str(&d);
        }
        let n = if self.o.calls { self.r.range(if self.o.inl || self.o.cps { 3 } else { 0 }, self.o.funcs) } else { 0 };
        for i in 0..n {
            if self.o.call_heavy && !self.o.wasm && self.r.chance(1, 4) {
                self.mutual(i);
                continue;
            }
            let recursive = self.r.chance(1, if self.o.inl { 9 } else { 4 });
            if self.o.cps && self.r.chance(2, 3) {
                let mut params = if recursive { vec![Ty::I32] } else { vec![] };
                for _ in 0..self.r.range(1, 4) {
                    params.push(if self.r.chance(2, 3) { self.heap_ty() } else { self.ty() });
                }
                let s = Sig { name: format!("c{i}"), params, ret: Ty::I32, recursive };
                self.cps_function(s.clone());
                self.cps.push(s);
                continue;
            }
            let mut params = vec![];
            if recursive {
                params.push(Ty::I32);
            }
            // at times more than the calling convention has registers for
            let np = if self.r.chance(1, 8) { self.r.range(7, 11) } else { self.r.range(0, 3) };
            for _ in 0..np {
                params.push(self.ty());
            }
            let ret = if self.o.inl { *self.r.pick(&[Ty::I32, Ty::I64]) } else { self.ty() };
            let s = Sig { name: format!("f{i}"), params, ret, recursive };
            self.function(s.clone(), false);
            self.sigs.push(s);
        }
        let params = (0..self.r.range(1, 3)).map(|_| *self.r.pick(&[Ty::I1, Ty::I32, Ty::I64])).collect();
        let e = Sig { name: "entry".into(), params, ret: *self.r.pick(&[Ty::I32, Ty::I64]), recursive: false };
        self.function(e.clone(), true);
        self.out.push_str("}\n");
        (std::mem::take(&mut self.out), e)
    }
    pub fn arg(&mut self, t: Ty) -> i128 {
        match t {
            Ty::I1 => self.r.below(2) as i128,
            Ty::I32 => *self.r.pick(&I32S) as i128,
            _ => *self.r.pick(&I64S) as i128,
        }
    }
}
