//@ use seg_ops.vrs
//@ rwtype EntityId => u64
//@ item crates/common/src/entities.rs Alignment
//@ item crates/common/src/entities.rs MarkerType
//@ item crates/common/src/entities.rs TextDirection
//@ item crates/common/src/entities.rs ListStyle
//@ item crates/common/src/entities.rs Block only id, list, document_position, fmt_alignment, fmt_top_margin, fmt_bottom_margin, fmt_left_margin, fmt_right_margin, fmt_heading_level, fmt_indent, fmt_text_indent, fmt_marker, fmt_tab_positions, fmt_line_height, fmt_non_breakable_lines, fmt_direction, fmt_background_color, fmt_is_code_block, fmt_code_language
//@ item crates/common/src/entities.rs List only style, indent, prefix, suffix
//@ item crates/common/src/parser_tools/fragment_schema.rs FragmentList
//@ item crates/common/src/parser_tools/fragment_schema.rs FragmentBlock
//@ item crates/common/src/parser_tools/fragment_schema.rs FragmentData
#[verifier::external_body]
pub struct FragmentTable { x: u8 }
impl Clone for Alignment {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for MarkerType {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for TextDirection {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for ListStyle {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- copying
pub open spec fn el_format(s: FragmentElement) -> CharacterFormat {
    CharacterFormat { font_family: s.fmt_font_family, font_point_size: s.fmt_font_point_size, font_weight: s.fmt_font_weight, font_bold: s.fmt_font_bold, font_italic: s.fmt_font_italic,
        font_underline: s.fmt_font_underline, font_overline: s.fmt_font_overline, font_strikeout: s.fmt_font_strikeout, letter_spacing: s.fmt_letter_spacing, word_spacing: s.fmt_word_spacing,
        anchor_href: s.fmt_anchor_href, anchor_names: s.fmt_anchor_names, is_anchor: s.fmt_is_anchor, tooltip: s.fmt_tooltip, underline_style: s.fmt_underline_style, vertical_alignment: s.fmt_vertical_alignment }
}
pub open spec fn el_piece(s: FragmentElement) -> (Seq<char>, CharacterFormat) { (match s.content { InlineContent::Text(t) => t@, _ => seq![] }, el_format(s)) }
pub open spec fn el_pieces(s: Seq<FragmentElement>) -> Seq<(Seq<char>, CharacterFormat)> { s.map_values(|x: FragmentElement| el_piece(x)) }
pub open spec fn el_texts(s: Seq<FragmentElement>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).content is Text && s[i].content->Text_0@.len() > 0 }
pub proof fn el_push(s: Seq<FragmentElement>, x: FragmentElement)
    ensures expand(el_pieces(s.push(x))) == expand(el_pieces(s)) + spread(el_piece(x).0, el_piece(x).1),
{ assert(el_pieces(s.push(x)).drop_last() =~= el_pieces(s)); }
pub open spec fn chars_of<F>(s: Seq<(char, F)>) -> Seq<char> { Seq::new(s.len(), |k: int| s[k].0) }
