//@ use format_types.vrs
verus! {
//@ use run_ops.vrs
}
