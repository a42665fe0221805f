use vstd::prelude::*;
use vstd::string::*;
verus! {
//@ use seg_ops.vrs
}
fn main() {}
