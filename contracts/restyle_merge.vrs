use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use vstd::seq_lib::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub mod common { pub mod entities {
use vstd::prelude::*;
//@ item crates/common/src/entities.rs UnderlineStyle
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs CharVerticalAlignment
//@ derive Clone, Copy
} }
pub mod dtos {
use vstd::prelude::*;
//@ item crates/document_formatting/src/dtos.rs MergeTextFormatDto
}
use common::entities::{UnderlineStyle, CharVerticalAlignment};
use dtos::MergeTextFormatDto;
/// a format with what the request names put over it (an empty family names nothing)
pub open spec fn overlaid(f: CharacterFormat, d: MergeTextFormatDto) -> CharacterFormat {
    CharacterFormat {
        font_family: if d.font_family is Some && d.font_family->0@.len() > 0 { d.font_family } else { f.font_family },
        font_bold: over(f.font_bold, d.font_bold), font_italic: over(f.font_italic, d.font_italic), font_underline: over(f.font_underline, d.font_underline), font_strikeout: over(f.font_strikeout, d.font_strikeout),
        ..f
    }
}
//@ use restyle_ops.vrs DTO=MergeTextFormatDto FILE=crates/document_formatting/src/use_cases/merge_text_format_uc.rs EXEC=execute_merge_text_format CASE=MergeTextFormatUseCase UOW=MergeTextFormatUnitOfWorkTrait FACT=MergeTextFormatUnitOfWorkFactoryTrait
}
fn main() {}
