use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use vstd::seq_lib::*;
verus! {
// CharacterFormat is left abstract: two trusted facts about its derives.
#[verifier::external_body]
pub struct CharacterFormat { x: u8 }
impl PartialEqSpecImpl for CharacterFormat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(PartialEq) on CharacterFormat is structural equality
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl Clone for CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(Clone) on CharacterFormat returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ item crates/common/src/format_runs.rs FormatRun
//@ item crates/common/src/format_runs.rs ImageAnchor
impl Clone for FormatRun {
    #[verifier::external_body] // TRUSTED: derive(Clone) on FormatRun returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for ImageAnchor {
    #[verifier::external_body] // TRUSTED: derive(Clone) on ImageAnchor returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
}
fn main() {}
