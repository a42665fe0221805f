use vstd::prelude::*;
verus! {
//@ use offset_index.vrs
}
fn main() {}
