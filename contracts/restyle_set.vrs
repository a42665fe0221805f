use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use vstd::seq_lib::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub mod common { pub mod entities {
use vstd::prelude::*;
//@ item crates/common/src/entities.rs UnderlineStyle
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs CharVerticalAlignment
//@ derive Clone, Copy
} }
pub mod dtos {
use vstd::prelude::*;
//@ item crates/document_formatting/src/dtos.rs UnderlineStyle
//@ derive Clone, Copy
//@ item crates/document_formatting/src/dtos.rs CharVerticalAlignment
//@ derive Clone, Copy
//@ item crates/document_formatting/src/dtos.rs SetTextFormatDto
}
use common::entities::{UnderlineStyle, CharVerticalAlignment};
use dtos::SetTextFormatDto;
pub open spec fn line_told(s: dtos::UnderlineStyle) -> UnderlineStyle {
    match s {
        dtos::UnderlineStyle::NoUnderline => UnderlineStyle::NoUnderline,
        dtos::UnderlineStyle::SingleUnderline => UnderlineStyle::SingleUnderline,
        dtos::UnderlineStyle::DashUnderline => UnderlineStyle::DashUnderline,
        dtos::UnderlineStyle::DotLine => UnderlineStyle::DotLine,
        dtos::UnderlineStyle::DashDotLine => UnderlineStyle::DashDotLine,
        dtos::UnderlineStyle::DashDotDotLine => UnderlineStyle::DashDotDotLine,
        dtos::UnderlineStyle::WaveUnderline => UnderlineStyle::WaveUnderline,
        dtos::UnderlineStyle::SpellCheckUnderline => UnderlineStyle::SpellCheckUnderline,
    }
}
pub open spec fn height_told(s: dtos::CharVerticalAlignment) -> CharVerticalAlignment {
    match s {
        dtos::CharVerticalAlignment::Normal => CharVerticalAlignment::Normal,
        dtos::CharVerticalAlignment::SuperScript => CharVerticalAlignment::SuperScript,
        dtos::CharVerticalAlignment::SubScript => CharVerticalAlignment::SubScript,
        dtos::CharVerticalAlignment::Middle => CharVerticalAlignment::Middle,
        dtos::CharVerticalAlignment::Bottom => CharVerticalAlignment::Bottom,
        dtos::CharVerticalAlignment::Top => CharVerticalAlignment::Top,
        dtos::CharVerticalAlignment::Baseline => CharVerticalAlignment::Baseline,
    }
}
//@ fn crates/document_formatting/src/use_cases/set_text_format_uc.rs underline_style_to_entity
ensures r == line_told(*s),
//@ ret r
//@ end
//@ fn crates/document_formatting/src/use_cases/set_text_format_uc.rs vertical_alignment_to_entity
ensures r == height_told(*v),
//@ ret r
//@ end
/// a format with what the request names put over it
pub open spec fn overlaid(f: CharacterFormat, d: SetTextFormatDto) -> CharacterFormat {
    CharacterFormat {
        font_family: over(f.font_family, d.font_family), font_point_size: over(f.font_point_size, d.font_point_size), font_weight: over(f.font_weight, d.font_weight),
        font_bold: over(f.font_bold, d.font_bold), font_italic: over(f.font_italic, d.font_italic), font_underline: over(f.font_underline, d.font_underline), font_overline: over(f.font_overline, d.font_overline), font_strikeout: over(f.font_strikeout, d.font_strikeout),
        letter_spacing: over(f.letter_spacing, d.letter_spacing), word_spacing: over(f.word_spacing, d.word_spacing),
        underline_style: match d.underline_style { Some(s) => Some(line_told(s)), None => f.underline_style },
        vertical_alignment: match d.vertical_alignment { Some(s) => Some(height_told(s)), None => f.vertical_alignment },
        ..f
    }
}
//@ use restyle_ops.vrs DTO=SetTextFormatDto FILE=crates/document_formatting/src/use_cases/set_text_format_uc.rs EXEC=execute_set_text_format CASE=SetTextFormatUseCase UOW=SetTextFormatUnitOfWorkTrait FACT=SetTextFormatUnitOfWorkFactoryTrait
}
fn main() {}
