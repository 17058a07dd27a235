//! IR -> JSON in the shape the TLA+ specification (IrSem) reads.
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;

pub fn ty_name(ctx: &IrContext, t: TypeRef) -> String {
    let d = ctx.types.get(t);
    if let Some(n) = d.attrs.get_symbol("name") {
        return format!("{}.{}#{n}", d.dialect, d.name);
    }
    if !d.params.is_empty() {
        let ps: Vec<String> = d.params.iter().map(|&p| ty_name(ctx, p)).collect();
        return format!("{}.{}({})", d.dialect, d.name, ps.join(","));
    }
    format!("{}.{}", d.dialect, d.name)
}

pub fn int_bytes(ty: &str) -> usize {
    match ty {
        "core.i1" | "core.i8" | "tribute_rt.bool" => 1,
        "core.i16" => 2,
        "core.i32" | "tribute_rt.int" | "tribute_rt.nat" => 4,
        "core.i64" => 8,
        _ => 0,
    }
}

/// Little-endian two's-complement bytes of `v` at width `n`.
pub fn bytes_of(v: i128, n: usize) -> Value {
    Value::Array((0..n).map(|i| json!(((v >> (8 * i)) & 0xff) as u8)).collect())
}

fn const_attr(m: &mut Map<String, Value>, attr: Option<&Attribute>, ty: &str) {
    let n = int_bytes(ty);
    match attr {
        Some(Attribute::Int(v)) if n > 0 => {
            m.insert("ck".into(), json!("int"));
            m.insert("v".into(), bytes_of(*v, n));
        }
        Some(Attribute::Bool(b)) => {
            m.insert("ck".into(), json!("int"));
            m.insert("v".into(), bytes_of(*b as i128, n.max(1)));
        }
        Some(Attribute::FloatBits(bits)) => {
            let f = f64::from_bits(*bits);
            m.insert("s".into(), json!(f.is_sign_negative() as i32));
            if f.is_nan() {
                m.insert("ck".into(), json!("nan"));
            } else if f.is_infinite() {
                m.insert("ck".into(), json!("inf"));
            } else {
                m.insert("ck".into(), json!("flt"));
                m.insert("v".into(), bytes_of(f.abs() as u64 as i128, 8));
            }
        }
        Some(Attribute::Int(v)) if ty == "core.f64" || ty == "core.f32" => {
            m.insert("ck".into(), json!("flt"));
            m.insert("s".into(), json!((*v < 0) as i32));
            m.insert("v".into(), bytes_of((*v).abs(), 8));
        }
        _ => {
            m.insert("ck".into(), json!("nil"));
        }
    }
}

/// An ability, with the arguments that tell its instances apart.
pub fn ability_name(ctx: &IrContext, t: TypeRef) -> String {
    let d = ctx.types.get(t);
    let ps: Vec<String> = d.params.iter().map(|&p| ty_name(ctx, p)).collect();
    format!("{}({})", d.attrs.get_symbol("name").map(|s| s.to_string()).unwrap_or_default(), ps.join(","))
}

struct D<'a> {
    ctx: &'a IrContext,
    vals: HashMap<ValueRef, usize>,
    blks: HashMap<BlockRef, usize>,
    blocks: Vec<Value>,
}

impl D<'_> {
    fn val(&mut self, v: ValueRef) -> usize {
        let n = self.vals.len() + 1;
        *self.vals.entry(v).or_insert(n)
    }
    fn blk(&mut self, b: BlockRef) -> usize {
        if let Some(&i) = self.blks.get(&b) {
            return i;
        }
        self.blocks.push(Value::Null);
        let n = self.blocks.len();
        self.blks.insert(b, n);
        n
    }
    fn region(&mut self, r: RegionRef) -> Value {
        let bs: Vec<BlockRef> = self.ctx.region(r).blocks.iter().copied().collect();
        let ids: Vec<usize> = bs.iter().map(|&b| self.blk(b)).collect();
        for &b in &bs {
            self.block(b);
        }
        json!(ids)
    }
    fn block(&mut self, b: BlockRef) {
        let id = self.blk(b);
        let args: Vec<ValueRef> = self.ctx.block_args(b).to_vec();
        let at: Vec<String> = args.iter().map(|&v| ty_name(self.ctx, self.ctx.value_ty(v))).collect();
        let args: Vec<usize> = args.into_iter().map(|v| self.val(v)).collect();
        let ops: Vec<OpRef> = self.ctx.block(b).ops.iter().copied().collect();
        let ops: Vec<Value> = ops.into_iter().map(|o| self.op(o)).collect();
        self.blocks[id - 1] = json!({"args": args, "at": at, "ops": ops});
    }
    fn op(&mut self, op: OpRef) -> Value {
        let ctx = self.ctx;
        let d = ctx.op(op);
        let name = format!("{}.{}", d.dialect, d.name);
        let operands: Vec<ValueRef> = ctx.op_operands(op).to_vec();
        let ot: Vec<String> = operands.iter().map(|&v| ty_name(ctx, ctx.value_ty(v))).collect();
        let o: Vec<usize> = operands.iter().map(|&v| self.val(v)).collect();
        let res: Vec<ValueRef> = ctx.op_results(op).to_vec();
        let r: Vec<usize> = res.iter().map(|&v| self.val(v)).collect();
        let t: Vec<String> = ctx.op_result_types(op).iter().map(|&t| ty_name(ctx, t)).collect();
        let mut a = Map::new();
        match name.as_str() {
            "arith.const" => const_attr(&mut a, d.attributes.get("value"), &t[0]),
            "arith.cmpi" | "arith.cmpf" => {
                if let Some(p) = d.attributes.get_symbol("predicate") {
                    a.insert("p".into(), json!(p.to_string()));
                }
            }
            "func.call" | "func.tail_call" => {
                if let Some(p) = d.attributes.get_symbol("callee") {
                    a.insert("f".into(), json!(p.to_string()));
                }
            }
            "tribute_control.call" => {
                if let Some(p) = d.attributes.get_symbol("callee") {
                    a.insert("f".into(), json!(p.to_string()));
                }
            }
            "effect.extend" => {
                if let Some(ab) = d.attributes.get_type("ability_ref") {
                    a.insert("ab".into(), json!(ability_name(ctx, ab)));
                }
            }
            "tribute_control.perform" | "tribute_control.handler" | "ability.perform" | "ability.call" | "effect.dispatch_tail" | "effect.dispatch_cps" => {
                let ab = d.attributes.get_type("ability_ref");
                let opn = d.attributes.get_symbol("op_name");
                if let (Some(ab), Some(opn)) = (ab, opn) {
                    a.insert("ab".into(), json!(ability_name(ctx, ab)));
                    a.insert("opn".into(), json!(opn.to_string()));
                    let n = ctx.types.get(ab).attrs.get_symbol("name");
                    let ix = tribute_ir::dialect::ability::compute_op_idx(n, Some(opn));
                    a.insert("ix".into(), bytes_of(ix as i128, 4));
                }
                for k in ["kind", "operation_kind"] {
                    if let Some(v) = d.attributes.get_symbol(k) {
                        a.insert("kind".into(), json!(v.to_string()));
                    }
                }
            }
            "ability.handle_dispatch" => {
                let mut l = vec![];
                if let Some(Attribute::List(v)) = d.attributes.get("ability_refs") {
                    for x in v.iter() {
                        if let Attribute::Type(t) = x {
                            l.push(ability_name(ctx, *t));
                        }
                    }
                }
                a.insert("abs".into(), json!(l));
            }
            "func.constant" | "closure.new" | "tribute_control.func_ref" => {
                if let Some(p) = d.attributes.get_symbol("func_ref") {
                    a.insert("f".into(), json!(p.to_string()));
                }
            }
            "scf.case" => {
                if let Some(Attribute::Int(v)) = d.attributes.get("value") {
                    a.insert("v".into(), bytes_of(*v, 4));
                }
            }
            _ => {
                if let Some(v) = d.attributes.get_i128("field") {
                    a.insert("field".into(), json!(v as i64));
                }
                if let Some(v) = d.attributes.get_symbol("tag") {
                    a.insert("tag".into(), json!(v.to_string()));
                }
                if let Some(v) = d.attributes.get_str("value") {
                    a.insert("bytes".into(), json!(v.as_bytes()));
                }
                if let Some(Attribute::Bytes(v)) = d.attributes.get("value") {
                    a.insert("bytes".into(), json!(v.to_vec()));
                }
            }
        }
        let regions: Vec<RegionRef> = d.regions.to_vec();
        let succ: Vec<BlockRef> = d.successors.to_vec();
        let rg: Vec<Value> = regions.into_iter().map(|r| self.region(r)).collect();
        let s: Vec<usize> = succ.into_iter().map(|b| self.blk(b)).collect();
        let attrs = if a.is_empty() { json!({"none": 0}) } else { Value::Object(a) };
        json!({"n": name, "o": o, "r": r, "t": t, "ot": ot, "a": attrs, "rg": rg, "s": s})
    }
}

pub fn dump_func(ctx: &IrContext, op: OpRef) -> Value {
    let data = ctx.op(op);
    let ext = data.attributes.contains_key("abi");
    let mut d = D { ctx, vals: HashMap::new(), blks: HashMap::new(), blocks: vec![] };
    if let Some(&r) = data.regions.first() {
        d.region(r);
    }
    let dangling = d.blocks.iter().any(|b| b.is_null());
    // a block referenced by a successor but absent from the region: keep the
    // program well-formed JSON, execution reaching it is stuck
    for b in d.blocks.iter_mut() {
        if b.is_null() {
            *b = json!({"args": [], "at": [], "ops": []});
        }
    }
    let _ = dangling;
    let (mut rt, mut pt) = (String::new(), vec![]);
    if let Some(t) = data.attributes.get_type("type") {
        let ps = ctx.types.get(t).params.to_vec();
        if !ps.is_empty() {
            rt = ty_name(ctx, ps[0]);
            pt = ps[1..].iter().map(|&p| ty_name(ctx, p)).collect();
        }
    }
    let mut cv = data.attributes.get_i128("tribute.calling_convention").map_or(-1, |v| v as i64);
    if cv < 0 && let Some(t) = data.attributes.get_type("type") {
        cv = ctx.types.get(t).attrs.get_i128("tribute.calling_convention").map_or(-1, |v| v as i64);
    }
    let ei = data.attributes.get_i128("tribute.closure_environment_index").map_or((cv >= 1) as i64, |v| v as i64);
    json!({"cv": cv, "ei": ei, "rt": rt, "pt": pt, "nv": d.vals.len(), "entry": 1, "blocks": d.blocks, "ext": ext})
}

pub fn dump_program(ctx: &IrContext, module: Module) -> Value {
    let mut funcs = Map::new();
    for op in module.ops(ctx) {
        let d = ctx.op(op);
        if ["func.func", "tribute_control.func"].contains(&format!("{}.{}", d.dialect, d.name).as_str())
            && let Some(n) = d.attributes.get_symbol("sym_name")
        {
            funcs.insert(n.to_string(), dump_func(ctx, op));
        }
    }
    json!({ "funcs": funcs })
}
