//! Exhaustive small templates: every integer operator over every shape of
//! operand (variable, each special constant) at several widths.
use crate::progen::{Sig, Ty};
use std::fmt::Write;

fn specials(bits: u32) -> Vec<i128> {
    let min = -(1i128 << (bits - 1));
    let max = (1i128 << (bits - 1)) - 1;
    let mut v = vec![0, 1, -1, 2, 7, -5, min, max];
    if bits >= 32 {
        v.push(65536);
    }
    v
}

/// Modules whose entry emits many template results; `chunk` results each.
/// Divisions that would trap on constants come one per module.
/// `compiled`: only operations the backends support.
pub fn modules(chunk: usize, compiled: bool, wasm: bool) -> Vec<(String, Sig)> {
    let ops = ["addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "and", "or", "xor", "shl", "shr", "shru"];
    let preds = ["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"];
    let mut items: Vec<(u32, String)> = vec![]; // (bits, template with {n} as unique prefix)
    let mut traps: Vec<(u32, String)> = vec![];
    for bits in [8u32, 16, 32, 64] {
        if wasm && bits < 32 {
            continue;
        }
        let t = format!("core.i{bits}");
        let x = format!("%x{bits}");
        let sp = specials(bits);
        for op in ops {
            let div = op.starts_with("div") || op.starts_with("rem");
            let sh = op.starts_with("sh");
            let amounts: Vec<i128> = vec![0, 1, 8, (bits - 1) as i128];
            let rhs: &Vec<i128> = if sh { &amounts } else { &sp };
            for c in rhs {
                let it = format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %r{{n}} = arith.{op} {x}, %k{{n}} : {t}");
                if div && *c == 0 { traps.push((bits, it)) } else if div && *c == -1 { traps.push((bits, it)) } else { items.push((bits, it)) }
            }
            if !div && !sh {
                for c in &sp {
                    items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %r{{n}} = arith.{op} %k{{n}}, {x} : {t}")));
                }
                items.push((bits, format!("%r{{n}} = arith.{op} {x}, {x} : {t}")));
            }
            for c in &sp {
                for d in rhs {
                    let it = format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %l{{n}} = arith.const {{{{value = {d}}}}} : {t}\n    %r{{n}} = arith.{op} %k{{n}}, %l{{n}} : {t}");
                    let trap = div && (*d == 0 || (op == "divsi" && *d == -1 && *c == sp[6]));
                    if trap { traps.push((bits, it)) } else { items.push((bits, it)) }
                }
            }
        }
        for p in preds {
            for c in &sp {
                items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %b{{n}} = arith.cmpi {x}, %k{{n}} {{{{predicate = @{p}}}}} : core.i1\n    %r{{n}} = arith.extend %b{{n}} : {t}")));
                items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %b{{n}} = arith.cmpi %k{{n}}, {x} {{{{predicate = @{p}}}}} : core.i1\n    %r{{n}} = arith.extend %b{{n}} : {t}")));
            }
            items.push((bits, format!("%b{{n}} = arith.cmpi {x}, {x} {{{{predicate = @{p}}}}} : core.i1\n    %r{{n}} = arith.extend %b{{n}} : {t}")));
            for (c, d) in [(0i128, 0i128), (0, 1), (1, 0), (-1, 0), (-1, 1), (sp[6], sp[7])] {
                items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %l{{n}} = arith.const {{{{value = {d}}}}} : {t}\n    %b{{n}} = arith.cmpi %k{{n}}, %l{{n}} {{{{predicate = @{p}}}}} : core.i1\n    %r{{n}} = arith.extend %b{{n}} : {t}")));
            }
        }
        for c in &sp {
            items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %r{{n}} = arith.negi %k{{n}} : {t}")));
        }
        items.push((bits, format!("%r{{n}} = arith.negi {x} : {t}")));
        items.push((bits, format!("%k{{n}} = arith.negi {x} : {t}\n    %r{{n}} = arith.negi %k{{n}} : {t}")));
        for c in [0, 1] {
            items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : core.i1\n    %r{{n}} = scf.if %k{{n}} : {t} {{{{\n      scf.yield {x}\n    }}}} {{{{\n      %o{{n}} = arith.const {{{{value = 9}}}} : {t}\n      scf.yield %o{{n}}\n    }}}}")));
            items.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : core.i1\n    %z{{n}} = arith.const {{{{value = 7}}}} : core.i64\n    scf.if %k{{n}} {{{{\n      %q{{n}} = func.call %z{{n}} {{{{callee = @vp_out}}}} : core.i64\n      scf.yield\n    }}}} {{{{\n      %w{{n}} = func.call %x64 {{{{callee = @vp_out}}}} : core.i64\n      scf.yield\n    }}}}\n    %r{{n}} = arith.addi {x}, {x} : {t}")));
        }
        // unused results of every kind next to a used one
        items.push((bits, format!("%d{{n}} = arith.muli {x}, {x} : {t}\n    %e{{n}} = arith.addi %d{{n}}, {x} : {t}\n    %u{{n}} = func.call %x64 {{{{callee = @vp_out}}}} : core.i64\n    %r{{n}} = arith.addi {x}, {x} : {t}")));
        // constant chains
        items.push((bits, format!("%k{{n}} = arith.const {{{{value = 3}}}} : {t}\n    %l{{n}} = arith.const {{{{value = -4}}}} : {t}\n    %m{{n}} = arith.addi %k{{n}}, %l{{n}} : {t}\n    %o{{n}} = arith.muli %m{{n}}, %l{{n}} : {t}\n    %p{{n}} = arith.subi %o{{n}}, %o{{n}} : {t}\n    %r{{n}} = arith.or %p{{n}}, {x} : {t}")));
        let other = if bits == 32 { "core.i64" } else { "core.i32" };
        items.push((bits, format!("%c{{n}} = core.unrealized_conversion_cast {x} : {other}\n    %r{{n}} = core.unrealized_conversion_cast %c{{n}} : {t}")));
        items.push((bits, format!("%r{{n}} = core.unrealized_conversion_cast {x} : {t}")));
        items.push((bits, format!("%c{{n}} = core.unrealized_conversion_cast {x} : {other}\n    %e{{n}} = core.unrealized_conversion_cast %c{{n}} : core.i16\n    %r{{n}} = core.unrealized_conversion_cast %e{{n}} : {t}")));
    }
    items.extend(floats());
    traps.extend(float_traps());
    if compiled {
        items.retain(|(_, t)| !t.contains("unrealized_conversion_cast"));
        for (bits, t) in items.iter_mut() {
            let ty = format!("core.i{bits}");
            *t = t.replace(
                &format!("%r{{n}} = arith.extend %b{{n}} : {ty}"),
                &format!("%r{{n}} = scf.if %b{{n}} : {ty} {{{{\n      %y{{n}} = arith.const {{{{value = -1}}}} : {ty}\n      scf.yield %y{{n}}\n    }}}} {{{{\n      %n{{n}} = arith.const {{{{value = 0}}}} : {ty}\n      scf.yield %n{{n}}\n    }}}}"),
            );
        }
    }
    let sig = Sig { name: "entry".into(), params: vec![Ty::I32, Ty::I64], ret: Ty::I64, recursive: false };
    let mut out = vec![];
    let mut mk = |group: &[(u32, String)]| {
        let mut s = String::from("core.module @templ {\n  func.func @vp_out(%a: core.i64) -> core.i64 attributes {abi = \"C\"} {\n    func.unreachable\n  }\n  func.func @entry(%x32: core.i32, %x64: core.i64) -> core.i64 {\n");
        for b in [8, 16] {
            if group.iter().any(|(g, _)| *g == b) {
                let _ = writeln!(s, "    %x{b} = arith.trunc %x32 : core.i{b}");
            }
        }
        if group.iter().any(|(_, t)| t.contains("%xf") || t.contains("@cls")) {
            s = s.replace("  func.func @entry", &format!("{CLASSIFY}  func.func @entry"));
            s.push_str(SMALL);
        }
        for (n, (bits, it)) in group.iter().enumerate() {
            let it = it.replace("{n}", &n.to_string()).replace("{{", "{").replace("}}", "}");
            let _ = writeln!(s, "    {it}");
            if *bits < 64 {
                let _ = writeln!(s, "    %w{n}_ = arith.extend %r{n} : core.i64\n    %o{n}_ = func.call %w{n}_ {{callee = @vp_out}} : core.i64");
            } else {
                let _ = writeln!(s, "    %o{n}_ = func.call %r{n} {{callee = @vp_out}} : core.i64");
            }
        }
        s.push_str("    func.return %x64\n  }\n}\n");
        out.push((s, sig.clone()));
    };
    for g in items.chunks(chunk) {
        mk(g);
    }
    for t in traps.iter().step_by(3) {
        mk(std::slice::from_ref(t));
    }
    out
}

/// What a float is, as an integer: a number outside the small integers for
/// NaN, the infinities and the negative zero, and the number itself otherwise.
const CLASSIFY: &str = r#"  func.func @cls(%r: core.f64) -> core.i64 {
    %z = arith.const {value = 0.0} : core.f64
    %one = arith.const {value = 1.0} : core.f64
    %pi = arith.const {value = inf} : core.f64
    %ni = arith.const {value = -inf} : core.f64
    %isnan = arith.cmpf %r, %r {predicate = @une} : core.i1
    %v = scf.if %isnan : core.i64 {
      %n = arith.const {value = 700001} : core.i64
      scf.yield %n
    } {
      %ispi = arith.cmpf %r, %pi {predicate = @oeq} : core.i1
      %a = scf.if %ispi : core.i64 {
        %n = arith.const {value = 700002} : core.i64
        scf.yield %n
      } {
        %isni = arith.cmpf %r, %ni {predicate = @ole} : core.i1
        %b = scf.if %isni : core.i64 {
          %n = arith.const {value = 700003} : core.i64
          scf.yield %n
        } {
          %q = arith.divf %one, %r : core.f64
          %nz = arith.cmpf %q, %ni {predicate = @oeq} : core.i1
          %c = scf.if %nz : core.i64 {
            %n = arith.const {value = 700004} : core.i64
            scf.yield %n
          } {
            %i = arith.convert %r : core.i64
            scf.yield %i
          }
          scf.yield %c
        }
        scf.yield %b
      }
      scf.yield %a
    }
    func.return %v
  }
"#;
/// small integers as floats
const SMALL: &str = "    %m_ = arith.const {value = 1023} : core.i32\n    %h_ = arith.const {value = 500} : core.i32\n    %s_ = arith.and %x32, %m_ : core.i32\n    %t_ = arith.subi %s_, %h_ : core.i32\n    %xf64 = arith.convert %t_ : core.f64\n    %xf32 = arith.convert %t_ : core.f32\n";

fn cls(t: &str, body: &str) -> (u32, String) {
    let wide = if t == "core.f32" { "%g{n} = arith.extend %f{n} : core.f64\n    %r{n} = func.call %g{n}" } else { "%r{n} = func.call %f{n}" };
    (64, format!("{body}\n    {wide} {{{{callee = @cls}}}} : core.i64"))
}

fn floats() -> Vec<(u32, String)> {
    let mut v = vec![];
    let sp = ["0.0", "-0.0", "1.0", "-1.0", "12.0", "-3.0", "inf", "-inf", "NaN"];
    let preds = ["oeq", "une", "olt", "ole", "ogt", "oge"];
    for t in ["core.f64", "core.f32"] {
        let x = format!("%xf{}", &t[6..]);
        let k = |n: &str, c: &str| format!("%{n}{{n}} = arith.const {{{{value = {c}}}}} : {t}");
        for op in ["addf", "subf", "mulf", "divf"] {
            for c in sp {
                for d in sp {
                    // exact quotients only
                    if op == "divf" && ((c == "1.0" || c == "-1.0" || c == "-3.0") && (d == "12.0" || d == "-3.0")) && !(c == d) {
                        continue;
                    }
                    v.push(cls(t, &format!("{}\n    {}\n    %f{{n}} = arith.{op} %k{{n}}, %l{{n}} : {t}", k("k", c), k("l", d))));
                }
                if op != "divf" || !(c == "12.0" || c == "-3.0") {
                    v.push(cls(t, &format!("{}\n    %f{{n}} = arith.{op} {x}, %k{{n}} : {t}", k("k", c))));
                }
                if op != "divf" || !(c == "12.0" || c == "-3.0" || c == "1.0" || c == "-1.0") {
                    v.push(cls(t, &format!("{}\n    %f{{n}} = arith.{op} %k{{n}}, {x} : {t}", k("k", c))));
                }
            }
            v.push(cls(t, &format!("%f{{n}} = arith.{op} {x}, {x} : {t}")));
        }
        for c in sp {
            v.push(cls(t, &format!("{}\n    %f{{n}} = arith.negf %k{{n}} : {t}", k("k", c))));
            let o = if t == "core.f64" { "core.f32" } else { "core.f64" };
            let conv = if t == "core.f64" { "convert" } else { "extend" };
            // to the other width, and back
            v.push(cls(o, &format!("{}\n    %f{{n}} = arith.{conv} %k{{n}} : {o}", k("k", c))));
        }
        v.push(cls(t, &format!("%f{{n}} = arith.negf {x} : {t}")));
        v.push(cls(t, &format!("%e{{n}} = arith.negf {x} : {t}\n    %f{{n}} = arith.negf %e{{n}} : {t}")));
        for p in preds {
            let b = |a: &str, c: &str| {
                format!("%b{{n}} = arith.cmpf {a}, {c} {{{{predicate = @{p}}}}} : core.i1\n    %r{{n}} = scf.if %b{{n}} : core.i64 {{{{\n      %y{{n}} = arith.const {{{{value = -1}}}} : core.i64\n      scf.yield %y{{n}}\n    }}}} {{{{\n      %n{{n}} = arith.const {{{{value = 0}}}} : core.i64\n      scf.yield %n{{n}}\n    }}}}")
            };
            for c in sp {
                v.push((64, format!("{}\n    {}", k("k", c), b(&x, "%k{n}"))));
                for d in sp {
                    v.push((64, format!("{}\n    {}\n    {}", k("k", c), k("l", d), b("%k{n}", "%l{n}"))));
                }
            }
            v.push((64, b(&x, &x)));
        }
        // conversions between integers and floats
        for bits in [32, 64] {
            for c in ["0", "1", "-1", "-7", "16777216", "-8388607", &format!("{}", -(1i128 << (bits - 1)))] {
                let i = format!("core.i{bits}");
                v.push((bits as u32, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {i}\n    %f{{n}} = arith.convert %k{{n}} : {t}\n    %r{{n}} = arith.convert %f{{n}} : {i}")));
                v.push((bits as u32, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {i}\n    %f{{n}} = arith.convert %k{{n}} : {t}\n    %r{{n}} = arith.trunc %f{{n}} : {i}")));
            }
            v.push((bits as u32, format!("%r{{n}} = arith.convert {x} : core.i{bits}")));
            v.push((bits as u32, format!("%r{{n}} = arith.trunc {x} : core.i{bits}")));
        }
        v.push((64, format!("%k{{n}} = arith.const {{{{value = 3000000000}}}} : core.i64\n    %f{{n}} = arith.convert %k{{n}} : core.f64\n    %r{{n}} = arith.convert %f{{n}} : core.i64")));
    }
    for (a, b) in [("i64", "i32"), ("i32", "i64")] {
        v.push((b[1..].parse().unwrap(), format!("%r{{n}} = arith.cast %x{} : core.{b}", &a[1..])));
    }
    v
}

/// conversions of floats no integer stands for
fn float_traps() -> Vec<(u32, String)> {
    let mut v = vec![];
    for t in ["core.f64", "core.f32"] {
        for (bits, cs) in [(32, ["NaN", "inf", "-inf", "2147483648.0", "-2147484160.0"]), (64, ["NaN", "inf", "-inf", "9223372036854775808.0", "-9223373136366403584.0"])] {
            for c in cs {
                for op in ["convert", "trunc"] {
                    v.push((bits, format!("%k{{n}} = arith.const {{{{value = {c}}}}} : {t}\n    %r{{n}} = arith.{op} %k{{n}} : core.i{bits}")));
                }
            }
        }
    }
    v
}
