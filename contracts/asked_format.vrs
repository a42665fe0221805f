// The character format a formatted insertion asks for.
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ item crates/common/src/entities.rs UnderlineStyle
//@ item crates/common/src/entities.rs CharVerticalAlignment
//@ item crates/common/src/format_runs.rs CharacterFormat
//@ item crates/document_editing/src/dtos.rs InsertFormattedTextDto
#[verifier::external_body] // TRUSTED: String::clone returns an equal value
pub fn std_clone_string(s: &String) -> (r: String) ensures r == *s { s.clone() }
/// exactly the six attributes of the request, nothing else
pub open spec fn asks(f: CharacterFormat, d: InsertFormattedTextDto) -> bool {
    &&& f.font_family == Some(d.font_family) && f.font_point_size == Some(d.font_point_size) && f.font_bold == Some(d.font_bold) && f.font_italic == Some(d.font_italic) && f.font_underline == Some(d.font_underline) && f.font_strikeout == Some(d.font_strikeout)
    &&& f.font_weight is None && f.font_overline is None && f.letter_spacing is None && f.word_spacing is None && f.anchor_href is None && f.anchor_names@.len() == 0 && f.is_anchor is None && f.tooltip is None && f.underline_style is None && f.vertical_alignment is None
}
//@ fn crates/document_editing/src/use_cases/insert_formatted_text_uc.rs dto_to_character_format
ensures asks(r, *dto),
//@ ret r
//@ rw dto.font_family.clone() => std_clone_string(&dto.font_family)
//@ end
}
fn main() {}
