//! The native compilation pipeline (as /repo/src/pipeline.rs drives it), from a
//! shared-IR module to an object file.
use tribute_passes::native as n;
use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::rewrite::{Module, TypeConverter};
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir_cranelift_backend::passes::{adt_to_clif, arith_to_clif, cf_to_clif, func_to_clif, mem_to_clif};
use trunk_ir_cranelift_backend::{RodataEntry, emit_module_to_native};

#[derive(Clone, Copy)]
pub struct RcPolicy {
    pub borrow_params: bool,
    pub borrow_temps: bool,
    pub pairs: bool,
}
impl RcPolicy {
    /// bits: 1 borrowed parameters, 2 temporary borrows, 4 paired elimination
    pub fn bits(b: u64) -> RcPolicy {
        RcPolicy { borrow_params: b & 1 != 0, borrow_temps: b & 2 != 0, pairs: b & 4 != 0 }
    }
}

fn tc(ctx: &mut IrContext) -> TypeConverter {
    n::type_converter::native_type_converter(ctx).0
}

fn nest_scf(ctx: &mut IrContext, module: Module) -> Result<(), String> {
    let m = core_dialect::Module::from_op(ctx, module.op()).map_err(|_| "not a module")?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(trunk_ir::transforms::scf_to_cf_pass());
    pm.run(ctx, m).map_err(|e| e.to_string())
}

/// calls of built-in functions, lowered before anything target-dependent
pub fn builtins(ctx: &mut IrContext, module: Module) -> Result<(), String> {
    let m = core_dialect::Module::from_op(ctx, module.op()).map_err(|_| "not a module")?;
    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::intrinsic_to_arith::LowerIntrinsicToArith)
        .add_pass(tribute_passes::list_intrinsics::LowerListIntrinsics)
        .add_pass(tribute_passes::io_lowering::LowerIoIntrinsics);
    pm.run(ctx, m).map_err(|e| e.to_string())
}

/// target-dependent cleanup common to the backends
pub fn optimize(ctx: &mut IrContext, module: Module) {
    let mut am = trunk_ir::analysis::AnalysisCache::new();
    trunk_ir::transforms::inline::inline_functions(ctx, module, &mut am);
    trunk_ir::transforms::global_dce::eliminate_dead_functions(ctx, module);
    let _ = trunk_ir::transforms::canonicalize::canonicalize(ctx, module);
    trunk_ir::transforms::dce::eliminate_dead_code(ctx, module, Default::default());
}

/// Lower to the clif dialect with reference counting inserted.
pub fn prepare(ctx: &mut IrContext, module: Module, pol: RcPolicy) -> Result<Vec<RodataEntry>, String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    n::entrypoint::generate_native_entrypoint(ctx, module, false);
    let consts = n::const_to_native::analyze_consts(ctx, module);
    n::const_to_native::lower(ctx, module, &consts).map_err(|x| e(&x))?;
    n::intrinsic_to_native::lower(ctx, module).map_err(|x| e(&x))?;
    n::io::lower(ctx, module).map_err(|x| e(&x))?;
    n::list::lower(ctx, module).map_err(|x| e(&x))?;
    nest_scf(ctx, module)?;
    let t = tc(ctx);
    let sums = n::ownership_summary::compute_and_attach(ctx, module, &t).map_err(|x| e(&x))?;
    func_to_clif::lower(ctx, module, t).map_err(|x| e(&x))?;
    let t = tc(ctx);
    cf_to_clif::lower(ctx, module, t).map_err(|x| e(&x))?;
    let t = tc(ctx);
    let rtti = n::rtti::generate_rtti(ctx, module, &t);
    n::adt_rc_header::lower(ctx, module, t, &rtti.type_to_idx).map_err(|x| e(&x))?;
    let t = tc(ctx);
    adt_to_clif::lower(ctx, module, t).map_err(|x| e(&x))?;
    let t = tc(ctx);
    arith_to_clif::lower(ctx, module, t).map_err(|x| e(&x))?;
    let t = tc(ctx);
    mem_to_clif::lower(ctx, module, t).map_err(|x| e(&x))?;
    let t = tc(ctx);
    n::tribute_rt_to_clif::lower(ctx, module, t).map_err(|x| e(&x))?;
    use n::rc_insertion::{BorrowedParameterPolicy as B, TemporaryBorrowPolicy as T};
    n::rc_insertion::insert_rc_with_policies_and_trusted_summaries(
        ctx,
        module,
        if pol.borrow_params { B::ElideProvenBorrowed } else { B::Preserve },
        if pol.borrow_temps { T::ElideProvenFieldBorrows } else { T::Preserve },
        &sums,
    )
    .map_err(|x| e(&x))?;
    if pol.pairs {
        n::rc_optimization::eliminate_paired_rc(ctx, module);
    }
    Ok(consts.rodata.iter().map(|(s, d)| RodataEntry { symbol: *s, data: d.clone() }).collect())
}

pub fn finish(ctx: &mut IrContext, module: Module, rodata: &[RodataEntry]) -> Result<Vec<u8>, String> {
    let t = tc(ctx);
    let r = resolve_unrealized_casts(ctx, module, &t);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    n::rc_lowering::lower_rc(ctx, module);
    emit_module_to_native(ctx, module, rodata).map_err(|e| e.to_string())
}
