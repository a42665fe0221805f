use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ rwtype Option<String> => Option<Str>
//@ rwtype Vec<String> => Names
// strings inside formats are left abstract
#[verifier::external_body]
pub struct Str { x: u8 }
impl Clone for Str {
    #[verifier::external_body] // TRUSTED: String::clone returns an equal string
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Names { x: u8 }
impl Clone for Names {
    #[verifier::external_body] // TRUSTED: Vec<String>::clone returns an equal list
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ item crates/common/src/entities.rs UnderlineStyle
//@ item crates/common/src/entities.rs CharVerticalAlignment
//@ item crates/public_api/src/lib.rs Color
//@ item crates/public_api/src/lib.rs TextFormat
//@ item crates/public_api/src/highlight.rs HighlightFormat
//@ item crates/public_api/src/highlight.rs HighlightSpan
//@ item crates/public_api/src/flow.rs FragmentContent
impl Clone for UnderlineStyle {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CharVerticalAlignment {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Color {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Color {}
impl Clone for TextFormat {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl HighlightFormat {
    #[verifier::external_body] // TRUSTED: derive(Default) of optional fields is None
    pub fn default() -> (r: Self) ensures r == unset() { unimplemented!() }
}
/// Option::or, Option::or_else
pub fn std_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == pick(a, b) { match a { Some(x) => Some(x), None => b } }

// ---- what a highlight does to a format
pub open spec fn pick<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn unset() -> HighlightFormat {
    HighlightFormat { foreground_color: None, background_color: None, underline_color: None, font_family: None, font_point_size: None, font_weight: None,
        font_bold: None, font_italic: None, font_underline: None, font_overline: None, font_strikeout: None, letter_spacing: None, word_spacing: None,
        underline_style: None, vertical_alignment: None, tooltip: None }
}
/// the later highlight wins, attribute by attribute
pub open spec fn over(a: HighlightFormat, b: HighlightFormat) -> HighlightFormat {
    HighlightFormat {
        foreground_color: pick(b.foreground_color, a.foreground_color), background_color: pick(b.background_color, a.background_color),
        underline_color: pick(b.underline_color, a.underline_color), font_family: pick(b.font_family, a.font_family),
        font_point_size: pick(b.font_point_size, a.font_point_size), font_weight: pick(b.font_weight, a.font_weight),
        font_bold: pick(b.font_bold, a.font_bold), font_italic: pick(b.font_italic, a.font_italic),
        font_underline: pick(b.font_underline, a.font_underline), font_overline: pick(b.font_overline, a.font_overline),
        font_strikeout: pick(b.font_strikeout, a.font_strikeout), letter_spacing: pick(b.letter_spacing, a.letter_spacing),
        word_spacing: pick(b.word_spacing, a.word_spacing), underline_style: pick(b.underline_style, a.underline_style),
        vertical_alignment: pick(b.vertical_alignment, a.vertical_alignment), tooltip: pick(b.tooltip, a.tooltip),
    }
}
/// the stored format under a highlight: set attributes show, the others and the link stay
pub open spec fn shown(f: TextFormat, h: HighlightFormat) -> TextFormat {
    TextFormat {
        font_family: pick(h.font_family, f.font_family), font_point_size: pick(h.font_point_size, f.font_point_size),
        font_weight: pick(h.font_weight, f.font_weight), font_bold: pick(h.font_bold, f.font_bold),
        font_italic: pick(h.font_italic, f.font_italic), font_underline: pick(h.font_underline, f.font_underline),
        font_overline: pick(h.font_overline, f.font_overline), font_strikeout: pick(h.font_strikeout, f.font_strikeout),
        letter_spacing: pick(h.letter_spacing, f.letter_spacing), word_spacing: pick(h.word_spacing, f.word_spacing),
        underline_style: pick(h.underline_style, f.underline_style), vertical_alignment: pick(h.vertical_alignment, f.vertical_alignment),
        tooltip: pick(h.tooltip, f.tooltip), foreground_color: pick(h.foreground_color, f.foreground_color),
        background_color: pick(h.background_color, f.background_color), underline_color: pick(h.underline_color, f.underline_color),
        anchor_href: f.anchor_href, anchor_names: f.anchor_names, is_anchor: f.is_anchor,
    }
}
//@ fn crates/public_api/src/highlight.rs apply_highlight
ensures r == shown(*base, *hl),
//@ ret r
//@ rw $a.or($b) => std_or($a, $b)
//@ rw $a.or_else(|| $b) => std_or($a, $b)
//@ end
/// the spans of a list combined, later ones last
pub open spec fn all_over(s: Seq<HighlightSpan>) -> HighlightFormat
    decreases s.len()
{ if s.len() == 0 { unset() } else { over(all_over(s.drop_last()), s.last().format) } }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub proof fn each_field(a: HighlightFormat, b: HighlightFormat, m: HighlightFormat)
    requires m.foreground_color == pick(b.foreground_color, a.foreground_color), m.background_color == pick(b.background_color, a.background_color), m.underline_color == pick(b.underline_color, a.underline_color), m.font_family == pick(b.font_family, a.font_family),
        m.font_point_size == pick(b.font_point_size, a.font_point_size), m.font_weight == pick(b.font_weight, a.font_weight), m.font_bold == pick(b.font_bold, a.font_bold), m.font_italic == pick(b.font_italic, a.font_italic),
        m.font_underline == pick(b.font_underline, a.font_underline), m.font_overline == pick(b.font_overline, a.font_overline), m.font_strikeout == pick(b.font_strikeout, a.font_strikeout), m.letter_spacing == pick(b.letter_spacing, a.letter_spacing),
        m.word_spacing == pick(b.word_spacing, a.word_spacing), m.underline_style == pick(b.underline_style, a.underline_style), m.vertical_alignment == pick(b.vertical_alignment, a.vertical_alignment), m.tooltip == pick(b.tooltip, a.tooltip),
    ensures m == over(a, b),
{ }
pub proof fn fold_step(s: Seq<&HighlightSpan>, k: int)
    requires 0 <= k < s.len(),
    ensures all_over(derefs(s.take(k + 1))) == over(all_over(derefs(s.take(k))), s[k].format),
{
    assert(derefs(s.take(k + 1)).drop_last() =~= derefs(s.take(k)));
}
//@ fn crates/public_api/src/highlight.rs merge_overlapping_highlights
ensures r == all_over(derefs(spans@)),
//@ ret r
//@ rwstmt if f.$x.is_some() { merged.$x = $v; } => let chosen = if f.$x.is_some() { $v } else { merged.$x }; proof«assert(chosen == pick(span.format.$x, was.$x));» merged.$x = chosen;
//@ loop 0 it
invariant
    it.seq().len() == spans@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == spans@[i],
    merged == all_over(derefs(spans@.take(it.index@ as int))),
//@ top
//raw
hide(all_over); hide(over);
proof { assert(all_over(derefs(spans@.take(0))) == unset()) by { reveal(all_over); } }
//@ loop 0 top
//raw
let ghost was = merged;
//@ loop 0 bottom
each_field(was, span.format, merged);
fold_step(spans@, it.index@ as int);
//@ loop 0 after
assert(spans@.take(spans@.len() as int) =~= spans@);
//@ end

// ---- what a paragraph shows, character by character
pub enum Glyph { Char(char), Image(Seq<char>, u32, u32, u32) }
pub struct Spot { pub pos: int, pub glyph: Glyph, pub format: TextFormat, pub run: u64 }
pub open spec fn spots(f: FragmentContent) -> Seq<Spot> {
    match f {
        FragmentContent::Text { text, format, offset, length, element_id, word_starts } =>
            Seq::new(text@.len(), |i: int| Spot { pos: offset + i, glyph: Glyph::Char(text@[i]), format, run: element_id }),
        FragmentContent::Image { name, width, height, quality, format, offset, element_id } =>
            seq![Spot { pos: offset as int, glyph: Glyph::Image(name@, width, height, quality), format, run: element_id }],
    }
}
pub open spec fn flat(v: Seq<FragmentContent>) -> Seq<Spot>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { flat(v.drop_last()) + spots(v.last()) } }
/// the length is the number of characters, and the fragment ends at a representable position
pub open spec fn frag_ok(f: FragmentContent) -> bool {
    match f {
        FragmentContent::Text { text, format, offset, length, element_id, word_starts } => text@.len() == length && offset + length < usize::MAX,
        FragmentContent::Image { name, width, height, quality, format, offset, element_id } => offset < usize::MAX,
    }
}
pub open spec fn covers(s: HighlightSpan, p: int) -> bool { s.start <= p < s.start + s.length }
/// the spans over a position, combined in the order they were set
pub open spec fn at(spans: Seq<HighlightSpan>, p: int) -> HighlightFormat { all_over(spans.filter(|s: HighlightSpan| covers(s, p))) }
pub open spec fn lit(spans: Seq<HighlightSpan>, c: Spot) -> Spot { Spot { pos: c.pos, glyph: c.glyph, format: shown(c.format, at(spans, c.pos)), run: c.run } }
pub open spec fn all_lit(spans: Seq<HighlightSpan>, c: Seq<Spot>) -> Seq<Spot> { c.map_values(|x: Spot| lit(spans, x)) }
pub proof fn shown_unset(f: TextFormat) ensures shown(f, unset()) == f { }
pub proof fn flat_push(v: Seq<FragmentContent>, f: FragmentContent) ensures flat(v.push(f)) == flat(v) + spots(f) { assert(v.push(f).drop_last() =~= v); }

#[verifier::external_body] // TRUSTED: str::chars().collect()
pub fn std_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body] // TRUSTED: collecting characters into a String
pub fn std_collect(v: &Vec<char>, a: usize, b: usize) -> (r: String) requires a <= b <= v@.len(), ensures r@ == v@.subrange(a as int, b as int) { v[a..b].iter().collect() }
#[verifier::external_body] // TRUSTED: String::clone
pub fn std_clone_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] // TRUSTED: sort_unstable: same elements, in order
pub fn std_sort(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: usize| final(v)@.contains(x) <==> old(v)@.contains(x),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j],
{ v.sort_unstable() }
#[verifier::external_body] // TRUSTED: dedup of a sorted vector: same elements, strictly increasing
pub fn std_dedup(v: &mut Vec<usize>)
    requires forall|i: int, j: int| 0 <= i <= j < old(v)@.len() ==> old(v)@[i] <= old(v)@[j],
    ensures forall|x: usize| final(v)@.contains(x) <==> old(v)@.contains(x),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> final(v)@[i] < final(v)@[j],
{ v.dedup() }
#[verifier::external_body] // TRUSTED: slice::windows(2): the consecutive pairs
pub fn std_pairs(v: &Vec<usize>) -> (r: Vec<[usize; 2]>)
    ensures r@.len() == if v@.len() == 0 { 0 } else { v@.len() - 1 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])[0] == v@[i] && r@[i][1] == v@[i + 1],
{ v.windows(2).map(|w| [w[0], w[1]]).collect() }
#[verifier::external_body] // TRUSTED: iter().filter(f).collect()
pub fn std_filter<'a, T, F: Fn(&&'a T) -> bool>(v: &'a [T], f: F, keep: Ghost<spec_fn(T) -> bool>) -> (r: Vec<&'a T>)
    requires forall|x: &&'a T| f.requires((x,)), forall|x: &&'a T, b: bool| f.ensures((x,), b) ==> b == keep@(**x),
    ensures derefs(r@) == v@.filter(keep@),
{ v.iter().filter(f).collect() }
#[verifier::external_body] // TRUSTED: Vec::with_capacity
pub fn std_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
#[verifier::external_body] // TRUSTED: depends on the text alone (word segmentation is outside this property)
pub fn compute_word_starts_local(t: &String) -> (r: Vec<u8>) { unimplemented!() }

pub open spec fn meets(s: HighlightSpan, a: int, b: int) -> bool { s.start < b && s.start + s.length > a }
/// no span begins or ends strictly between a and b
pub open spec fn uncut(spans: Seq<HighlightSpan>, a: int, b: int) -> bool {
    forall|k: int| 0 <= k < spans.len() ==> !(a < (#[trigger] spans[k]).start < b) && !(a < spans[k].start + spans[k].length < b)
}
pub proof fn filter_same(s: Seq<HighlightSpan>, f: spec_fn(HighlightSpan) -> bool, g: spec_fn(HighlightSpan) -> bool)
    requires forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == g(s[k]),
    ensures s.filter(f) == s.filter(g),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.drop_last().len() implies f(#[trigger] s.drop_last()[k]) == g(s.drop_last()[k]) by { assert(s.drop_last()[k] == s[k]); }
        filter_same(s.drop_last(), f, g);
    }
}
pub proof fn piece(spans: Seq<HighlightSpan>, a: int, b: int, p: int)
    requires uncut(spans, a, b), a <= p < b,
    ensures spans.filter(|s: HighlightSpan| meets(s, a, b)) == spans.filter(|s: HighlightSpan| covers(s, p)),
{
    filter_same(spans, |s: HighlightSpan| meets(s, a, b), |s: HighlightSpan| covers(s, p));
}
/// every place inside the fragment where a span begins or ends is a boundary
pub open spec fn cut_at(spans: Seq<HighlightSpan>, n: int, lo: int, hi: int, b: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < n ==> (lo < (#[trigger] spans[k]).start < hi ==> b.contains(spans[k].start))
        && (lo < spans[k].start + spans[k].length < hi ==> b.contains((spans[k].start + spans[k].length) as usize))
}
pub open spec fn bounded(b: Seq<usize>, lo: int, hi: int) -> bool { b.contains(lo as usize) && b.contains(hi as usize) && forall|x: usize| #[trigger] b.contains(x) ==> lo <= x <= hi }
pub proof fn pushed(spans: Seq<HighlightSpan>, n: int, lo: int, hi: int, b: Seq<usize>, x: usize)
    requires bounded(b, lo, hi), cut_at(spans, n, lo, hi, b), lo <= x <= hi,
    ensures bounded(b.push(x), lo, hi), cut_at(spans, n, lo, hi, b.push(x)), forall|y: usize| b.contains(y) || y == x ==> #[trigger] b.push(x).contains(y),
{
    assert forall|y: usize| #[trigger] b.push(x).contains(y) implies lo <= y <= hi by { let i = b.push(x).index_of(y); if i < b.len() { assert(b[i] == y); assert(b.contains(y)); } }
    assert(b.push(x)[b.len() as int] == x);
    assert forall|y: usize| b.contains(y) implies b.push(x).contains(y) by { let i = b.index_of(y); assert(b.push(x)[i] == y); }
}
pub proof fn not_between(b: Seq<usize>, k: int, x: usize)
    requires 0 <= k < b.len() - 1, forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j], b.contains(x),
    ensures !(b[k] < x < b[k + 1]),
{
    let i = b.index_of(x);
    if i < k { assert(b[i] < b[k]); }
    if i > k + 1 { assert(b[k + 1] < b[i]); }
}
pub proof fn no_cut_between(spans: Seq<HighlightSpan>, lo: int, hi: int, b: Seq<usize>, k: int)
    requires bounded(b, lo, hi), cut_at(spans, spans.len() as int, lo, hi, b), 0 <= k < b.len() - 1, forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j],
    ensures uncut(spans, b[k] as int, b[k + 1] as int),
{
    assert(b.contains(b[k]) && b.contains(b[k + 1]));
    assert forall|m: int| 0 <= m < spans.len() implies !(b[k] < (#[trigger] spans[m]).start < b[k + 1]) && !(b[k] < spans[m].start + spans[m].length < b[k + 1]) by {
        if b[k] < spans[m].start < b[k + 1] { not_between(b, k, spans[m].start); }
        if b[k] < spans[m].start + spans[m].length < b[k + 1] { not_between(b, k, (spans[m].start + spans[m].length) as usize); }
    }
}
pub proof fn no_spans(spans: Seq<HighlightSpan>, c: Seq<Spot>)
    requires spans.len() == 0,
    ensures all_lit(spans, c) == c,
{
    assert forall|i: int| 0 <= i < c.len() implies lit(spans, #[trigger] c[i]) == c[i] by { reveal(Seq::filter); shown_unset(c[i].format); }
    assert(all_lit(spans, c) =~= c);
}
pub proof fn lit_add(spans: Seq<HighlightSpan>, a: Seq<Spot>, b: Seq<Spot>) ensures all_lit(spans, a + b) == all_lit(spans, a) + all_lit(spans, b)
{ assert(all_lit(spans, a + b) =~= all_lit(spans, a) + all_lit(spans, b)); }
pub proof fn lit_piece(spans: Seq<HighlightSpan>, f: FragmentContent, p: FragmentContent, a: int, b: int)
    requires
        f is Text, p is Text, frag_ok(f), frag_ok(p), f->Text_offset <= a < b <= f->Text_offset + f->Text_length,
        p->Text_offset == a, p->Text_length == b - a, p->Text_text@ == f->Text_text@.subrange(a - f->Text_offset, b - f->Text_offset), p->Text_element_id == f->Text_element_id,
        p->Text_format == shown(f->Text_format, all_over(spans.filter(|s: HighlightSpan| meets(s, a, b)))), uncut(spans, a, b),
    ensures spots(p) == all_lit(spans, spots(f).subrange(a - f->Text_offset, b - f->Text_offset)),
{
    let o = f->Text_offset;
    let part = spots(f).subrange(a - o, b - o);
    assert forall|i: int| 0 <= i < b - a implies #[trigger] spots(p)[i] == lit(spans, part[i]) by { piece(spans, a, b, a + i); }
    assert(spots(p) =~= all_lit(spans, part));
}
pub proof fn lit_image(spans: Seq<HighlightSpan>, f: FragmentContent, p: FragmentContent)
    requires
        f is Image, p is Image, p->Image_offset == f->Image_offset, p->Image_name@ == f->Image_name@, p->Image_width == f->Image_width,
        p->Image_height == f->Image_height, p->Image_quality == f->Image_quality, p->Image_element_id == f->Image_element_id,
        p->Image_format == shown(f->Image_format, all_over(spans.filter(|s: HighlightSpan| meets(s, f->Image_offset as int, f->Image_offset + 1)))),
    ensures spots(p) == all_lit(spans, spots(f)),
{
    let o = f->Image_offset;
    piece(spans, o as int, o + 1, o as int);
    assert(spots(p) =~= all_lit(spans, spots(f)));
}
/// the first and the last of a strictly increasing list
pub proof fn edges(b: Seq<usize>, lo: int, hi: int)
    requires bounded(b, lo, hi), 0 <= lo <= hi <= usize::MAX, forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j],
    ensures b.len() >= 1, b[0] == lo, b.last() == hi,
{
    let i = b.index_of(lo as usize); assert(b.contains(b[0]) && b.contains(b.last())); let j = b.index_of(hi as usize);
    if i > 0 { assert(b[0] < b[i]); }
    if j < b.len() - 1 { assert(b[j] < b[b.len() - 1]); }
}
//@ fn crates/public_api/src/highlight.rs merge_highlight_spans
requires forall|i: int| 0 <= i < fragments@.len() ==> frag_ok(#[trigger] fragments@[i]),
ensures
    // the same characters, positions and runs, each character in its own format under the spans over it
    flat(r@) == all_lit(spans@, flat(fragments@)),
    forall|i: int| 0 <= i < r@.len() ==> frag_ok(#[trigger] r@[i]),
//@ ret r
//@ rw Vec::with_capacity($n) => std_with_capacity($n)
//@ rw boundaries.sort_unstable() => std_sort(&mut boundaries)
//@ rw boundaries.dedup() => std_dedup(&mut boundaries)
//@ rw boundaries.windows(2) => std_pairs(&boundaries)
//@ rw text.chars().collect() => std_chars(text)
//@ rw chars[char_start..char_end].iter().collect() => std_collect(&chars, char_start, char_end)
//@ rw name.clone() => std_clone_string(name)
//@ rw spans.iter().filter(|$p| { let $n = $e; s.start < offset + 1 && $c }).collect() => std_filter(spans, closure« -> (b: bool) requires offset < usize::MAX ensures b == meets(**s, offset as int, offset + 1)»(|s: &&HighlightSpan| { let $n = $e; s.start < offset + 1 && $c }), Ghost(|s: HighlightSpan| meets(s, offset as int, offset + 1)))
//@ rw spans.iter().filter(|$p| $b).collect() => std_filter(spans, closure« -> (b: bool) ensures b == meets(**s, sub_start as int, sub_end as int)»(|s: &&HighlightSpan| $b), Ghost(|s: HighlightSpan| meets(s, sub_start as int, sub_end as int)))
//@ top
//raw
proof { if spans@.len() == 0 { no_spans(spans@, flat(fragments@)); } }
//@ loop 0 it
invariant
    it.seq() == fragments@, forall|i: int| 0 <= i < fragments@.len() ==> frag_ok(#[trigger] fragments@[i]),
    flat(result@) == all_lit(spans@, flat(fragments@.take(it.index@ as int))),
    forall|i: int| 0 <= i < result@.len() ==> frag_ok(#[trigger] result@[i]),
//@ loop 0 top
//raw
let ghost done = result@; let ghost here = frag; let ghost n = it.index@ as int;
proof { assert(fragments@.take(n + 1).drop_last() =~= fragments@.take(n)); assert(fragments@.take(n + 1).last() == frag); lit_add(spans@, flat(fragments@.take(n)), spots(frag)); }
//@ loop 0 bottom
if here is Image {
    let p = result@.last();
    assert(result@ =~= done.push(p));
    flat_push(done, p);
    lit_image(spans@, here, p);
}
assert(flat(result@) == flat(done) + all_lit(spans@, spots(here)));
//@ loop 0 after
assert(fragments@.take(fragments@.len() as int) =~= fragments@);
//@ loop 1 it
invariant
    it.seq().len() == spans@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == spans@[i],
    bounded(boundaries@, offset as int, frag_end as int), cut_at(spans@, it.index@ as int, offset as int, frag_end as int, boundaries@), frag_end < usize::MAX, offset <= frag_end,
//@ loop 1 before
let b = boundaries@; assert(b[0] == offset && b[1] == frag_end);
//@ rwstmt boundaries.push(span.start); => proof«pushed(spans@, it.index@ as int, offset as int, frag_end as int, boundaries@, span.start);» boundaries.push(span.start);
//@ rwstmt boundaries.push(span_end); => proof«pushed(spans@, it.index@ as int, offset as int, frag_end as int, boundaries@, span_end);» boundaries.push(span_end);
//@ loop 2 top
//raw
let ghost i = it.index@ as int; let ghost before = result@; 
proof { no_cut_between(spans@, offset as int, frag_end as int, b, i); assert(b[i] < b[i + 1]); assert(b.contains(b[i]) && b.contains(b[i + 1])); }
//@ loop 2 bottom
let p = result@.last();
assert(result@ =~= before.push(p));
flat_push(before, p);
lit_piece(spans@, here, p, b[i] as int, b[i + 1] as int);
lit_add(spans@, spots(here).take(b[i] - offset), spots(here).subrange(b[i] - offset, b[i + 1] - offset));
assert(spots(here).take(b[i + 1] - offset) =~= spots(here).take(b[i] - offset) + spots(here).subrange(b[i] - offset, b[i + 1] - offset));
assert(flat(result@) =~= flat(done) + all_lit(spans@, spots(here).take(b[i + 1] - offset)));
//@ loop 2 after
assert(spots(here).take(spots(here).len() as int) =~= spots(here));
//@ loop 2 before
//raw
proof { edges(boundaries@, offset as int, frag_end as int); }
let ghost b = boundaries@;
//@ loop 2 it
invariant
    it.seq().len() == b.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])[0] == b[i] && it.seq()[i][1] == b[i + 1],
    b.len() >= 1, b[0] == offset, b.last() == frag_end, forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j],
    bounded(b, offset as int, frag_end as int), cut_at(spans@, spans@.len() as int, offset as int, frag_end as int, b),
    chars@ == text@, frag_end == offset + text@.len(), frag_end < usize::MAX,
    here is Text, frag_ok(here), here->Text_offset == offset, here->Text_length == length, here->Text_text@ == text@, here->Text_format == *format, here->Text_element_id == element_id,
    flat(result@) == flat(done) + all_lit(spans@, spots(here).take(b[it.index@ as int] - offset)),
    forall|i: int| 0 <= i < result@.len() ==> frag_ok(#[trigger] result@[i]),
//@ end

// ---- re-highlighting after an edit
//@ rwtype Option<Box<dyn Any + Send + Sync>> => Option<UserData>
//@ rwtype Arc<dyn SyntaxHighlighter> => Highlighter
//@ rwtype HashMap<usize, BlockHighlightData> => Blocks
//@ rwtype AppContext => Ctx
#[verifier::external_body]
pub struct UserData { x: u8 }
#[verifier::external_body]
pub struct Highlighter { x: u8 }
#[verifier::external_body]
pub struct Ctx { x: u8 }
//@ item crates/public_api/src/highlight.rs HighlightContext
//@ item crates/public_api/src/highlight.rs BlockHighlightData
#[verifier::external_body]
pub struct Blocks { x: u8 }
impl View for Blocks { type V = Map<usize, BlockHighlightData>; uninterp spec fn view(&self) -> Map<usize, BlockHighlightData>; }
//@ item crates/public_api/src/highlight.rs HighlightData
//@ item crates/public_api/src/inner.rs TextDocumentInner only ctx, highlight
/// what the highlighter gives for a paragraph: its spans and its state depend on the text and the state before it
pub uninterp spec fn spans_for(h: Highlighter, text: Seq<char>, prev: i64) -> Seq<HighlightSpan>;
pub uninterp spec fn state_for(h: Highlighter, text: Seq<char>, prev: i64) -> i64;
impl Highlighter {
    #[verifier::external_body] // TRUSTED: Arc::clone is the same highlighter
    pub fn share(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] // TRUSTED: a highlighter is a function of the text and the previous state (documented duty of the implementor)
    pub fn highlight_block(&self, text: &String, ctx: &mut HighlightContext)
        requires old(ctx).spans@.len() == 0, old(ctx).current_state == -1,
        ensures final(ctx).spans@ == spans_for(*self, text@, old(ctx).previous_state), final(ctx).current_state == state_for(*self, text@, old(ctx).previous_state),
    { unimplemented!() }
}
impl HighlightContext {
//@ fn crates/public_api/src/highlight.rs HighlightContext::new
ensures r.spans@.len() == 0, r.current_state == -1, r.previous_state == previous_state, r.block_id == block_id,
//@ ret r
//@ end
//@ fn crates/public_api/src/highlight.rs HighlightContext::set_format
ensures
    length == 0 ==> *final(self) == *old(self),
    length > 0 ==> final(self).spans@ == old(self).spans@.push(HighlightSpan { start, length, format })
        && final(self).current_state == old(self).current_state && final(self).previous_state == old(self).previous_state && final(self).block_id == old(self).block_id,
//@ end
//@ fn crates/public_api/src/highlight.rs HighlightContext::previous_block_state
ensures r == self.previous_state,
//@ ret r
//@ end
//@ fn crates/public_api/src/highlight.rs HighlightContext::set_current_block_state
ensures final(self).current_state == state, final(self).spans == old(self).spans, final(self).previous_state == old(self).previous_state, final(self).block_id == old(self).block_id,
//@ end
//@ fn crates/public_api/src/highlight.rs HighlightContext::current_block_state
ensures r == self.current_state,
//@ ret r
//@ end
//@ fn crates/public_api/src/highlight.rs HighlightContext::into_parts
ensures r.0 == self.spans, r.1 == self.current_state,
//@ ret r
//@ end
}
/// the paragraphs of the document, in order
pub uninterp spec fn paras(c: Ctx) -> Seq<(u64, Seq<char>)>;
#[verifier::external_body] // TRUSTED: identifiers are unique
pub proof fn paras_unique(c: Ctx) ensures forall|i: int, j: int| 0 <= i < j < paras(c).len() ==> paras(c)[i].0 != paras(c)[j].0 { }
#[verifier::external_body] // TRUSTED here: the paragraphs of the store sorted by position with their texts (bounded-checked by the harness)
pub fn ordered_block_ids(inner: &TextDocumentInner) -> (r: Vec<(u64, String)>)
    ensures r@.len() == paras(inner.ctx).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == paras(inner.ctx)[i].0 && r@[i].1@ == paras(inner.ctx)[i].1,
{ unimplemented!() }

impl Blocks {
    #[verifier::external_body] // TRUSTED: HashMap::clear
    pub fn clear(&mut self) ensures final(self)@ == Map::<usize, BlockHighlightData>::empty() { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::insert
    pub fn insert(&mut self, k: usize, v: BlockHighlightData) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::get
    pub fn get(&self, k: &usize) -> (r: Option<&BlockHighlightData>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::get_mut, then taking the user data out: spans and states stay
    pub fn take_user_data(&mut self, k: &usize) -> (r: Option<UserData>) ensures same_marks(final(self)@, old(self)@) { unimplemented!() }
}
pub open spec fn same_marks(a: Map<usize, BlockHighlightData>, b: Map<usize, BlockHighlightData>) -> bool {
    a.dom() == b.dom() && forall|k: usize| b.contains_key(k) ==> (#[trigger] a[k]).spans == b[k].spans && a[k].state == b[k].state
}
/// paragraph i holds what the highlighter gives for its text after state p
pub open spec fn marked(h: Highlighter, ps: Seq<(u64, Seq<char>)>, m: Map<usize, BlockHighlightData>, i: int, p: i64) -> bool {
    let id = ps[i].0 as usize;
    m.contains_key(id) && m[id].spans@ == spans_for(h, ps[i].1, p) && m[id].state == state_for(h, ps[i].1, p)
}
pub open spec fn before(ps: Seq<(u64, Seq<char>)>, m: Map<usize, BlockHighlightData>, i: int) -> i64 { if i == 0 { -1i64 } else { m[ps[i - 1].0 as usize].state } }
/// paragraph i is highlighted for its text and for the state its predecessor holds
pub open spec fn right(h: Highlighter, ps: Seq<(u64, Seq<char>)>, m: Map<usize, BlockHighlightData>, i: int) -> bool { marked(h, ps, m, i, before(ps, m, i)) }
/// before paragraph k is highlighted anew: right in front of it, nothing stored from there to j, from j on what was right before the edit
pub open spec fn stale(h: Highlighter, ps: Seq<(u64, Seq<char>)>, m: Map<usize, BlockHighlightData>, k: int, j: int) -> bool {
    &&& k < j <= ps.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] right(h, ps, m, i)
    &&& forall|i: int| k < i < j ==> !m.contains_key((#[trigger] ps[i]).0 as usize)
    &&& j < ps.len() ==> exists|p: i64| #[trigger] marked(h, ps, m, j, p)
    &&& forall|i: int| j < i < ps.len() ==> #[trigger] right(h, ps, m, i)
}
pub open spec fn same_at(ps: Seq<(u64, Seq<char>)>, a: Map<usize, BlockHighlightData>, b: Map<usize, BlockHighlightData>, i: int) -> bool {
    let id = ps[i].0 as usize;
    a.contains_key(id) == b.contains_key(id) && (a.contains_key(id) ==> a[id].spans == b[id].spans && a[id].state == b[id].state)
}
impl TextDocumentInner {
//@ fn crates/public_api/src/highlight.rs TextDocumentInner::rehighlight_all
ensures
    final(self).ctx == old(self).ctx, final(self).highlight is Some <==> old(self).highlight is Some,
    old(self).highlight is Some ==> final(self).highlight->Some_0.highlighter == old(self).highlight->Some_0.highlighter
        && forall|i: int| 0 <= i < paras(old(self).ctx).len() ==> #[trigger] right(final(self).highlight->Some_0.highlighter, paras(old(self).ctx), final(self).highlight->Some_0.blocks@, i),
//@ rw Arc::clone($x) => ($x).share()
//@ top
//raw
let ghost ps = paras(self.ctx); let ghost me = *self;
proof { paras_unique(self.ctx); }
//@ loop 0 it
invariant
    ps == paras(me.ctx), self.ctx == me.ctx, self.highlight is Some, me.highlight is Some,
    highlighter == me.highlight->Some_0.highlighter, self.highlight->Some_0.highlighter == highlighter,
    it.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it.seq()[i]).0 == ps[i].0 && it.seq()[i].1@ == ps[i].1,
    previous_state == before(ps, self.highlight->Some_0.blocks@, it.index@ as int),
    forall|i: int, j: int| 0 <= i < j < ps.len() ==> ps[i].0 != ps[j].0,
    forall|i: int| 0 <= i < it.index@ ==> #[trigger] right(highlighter, ps, self.highlight->Some_0.blocks@, i),
//@ loop 0 top
//raw
let ghost m = self.highlight->Some_0.blocks@; let ghost n = it.index@ as int;
//@ loop 0 bottom
let w = self.highlight->Some_0.blocks@;
assert forall|i: int| 0 <= i < n + 1 implies #[trigger] right(highlighter, ps, w, i) by { if i < n { assert(right(highlighter, ps, m, i)); assert(ps[i].0 != ps[n].0); if i > 0 { assert(ps[i - 1].0 != ps[n].0); } } else if i > 0 { assert(ps[i - 1].0 != ps[n].0); } }
//@ end
//@ fn crates/public_api/src/highlight.rs TextDocumentInner::rehighlight_from_block
requires
    // stale: only the paragraph the edit is in, the ones it made after it, and the next one for a new state before it
    old(self).highlight is Some ==> forall|k: int| 0 <= k < paras(old(self).ctx).len() && #[trigger] paras(old(self).ctx)[k].0 as usize == start_block_id
        ==> exists|j: int| #[trigger] stale(old(self).highlight->Some_0.highlighter, paras(old(self).ctx), old(self).highlight->Some_0.blocks@, k, j),
ensures
    final(self).ctx == old(self).ctx, final(self).highlight is Some <==> old(self).highlight is Some,
    old(self).highlight is Some && (exists|k: int| 0 <= k < paras(old(self).ctx).len() && #[trigger] paras(old(self).ctx)[k].0 as usize == start_block_id)
        ==> final(self).highlight->Some_0.highlighter == old(self).highlight->Some_0.highlighter
        && forall|i: int| 0 <= i < paras(old(self).ctx).len() ==> #[trigger] right(final(self).highlight->Some_0.highlighter, paras(old(self).ctx), final(self).highlight->Some_0.blocks@, i),
//@ loop 0 before
//raw
let ghost ps = paras(self.ctx); let ghost me = *self; let ghost m0 = self.highlight->Some_0.blocks@; let ghost k = start_idx as int;
proof { paras_unique(self.ctx); assert(ps[k].0 as usize == start_block_id); }
let ghost j = choose|j: int| stale(highlighter, ps, m0, k, j);
//@ loop 0 it
invariant_except_break
    forall|x: int| 0 <= x < start_idx + it.index@ ==> #[trigger] right(highlighter, ps, self.highlight->Some_0.blocks@, x),
    forall|x: int| start_idx + it.index@ <= x < ps.len() ==> same_at(ps, m0, self.highlight->Some_0.blocks@, x),
invariant
    ps == paras(me.ctx), self.ctx == me.ctx, self.highlight is Some, me.highlight is Some, k == start_idx, k < ps.len(),
    highlighter == me.highlight->Some_0.highlighter, self.highlight->Some_0.highlighter == highlighter,
    blocks@.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] blocks@[i]).0 == ps[i].0 && blocks@[i].1@ == ps[i].1,
    forall|i: int, j: int| 0 <= i < j < ps.len() ==> ps[i].0 != ps[j].0, stale(highlighter, ps, m0, k, j),
ensures
    forall|x: int| 0 <= x < ps.len() ==> #[trigger] right(highlighter, ps, self.highlight->Some_0.blocks@, x),
//@ loop 0 top
//raw
let ghost m = self.highlight->Some_0.blocks@;
//@ rw Arc::clone($x) => ($x).share()
//@ rw $h.get_mut(&bid).and_then(|d| d.user_data.take()) => $h.take_user_data(&bid)
//@ rw $h.map(|d| d.state) => $h.map(closure« -> (s: i64) ensures s == d.state»(|d: &BlockHighlightData| d.state))
//@ rw $h.map_or(-1, |d| $b) => std_map_or($h, -1, closure« -> (s: i64) ensures s == d.state»(|d: &BlockHighlightData| $b))
//@ rw blocks.iter().position(|(id, _)| $b) => std_position(&blocks, closure« -> (b: bool) ensures b == ((*x).0 as usize == start_block_id)»(|x: &(u64, String)| { let (id, _) = x; $b }), Ghost(|x: (u64, String)| x.0 as usize == start_block_id))
//@ behind let blocks = ordered_block_ids(self);
assert forall|k: int| 0 <= k < paras(self.ctx).len() implies (#[trigger] paras(self.ctx)[k]).0 == blocks@[k].0 by { }
//@ ahead if i > start_idx $b
let w = self.highlight->Some_0.blocks@; let n = i as int;
assert forall|x: int| 0 <= x < ps.len() && x != n implies (#[trigger] ps[x]).0 as usize != ps[n].0 as usize by { assert(ps[x].0 != ps[n].0); }
assert forall|x: int| 0 <= x < ps.len() && x != n implies #[trigger] same_at(ps, m, w, x) by { let id = ps[x].0 as usize; assert(m.contains_key(id) == w.contains_key(id)); if m.contains_key(id) { assert(w[id].spans == m[id].spans); } }
assert forall|x: int| 0 <= x < n + 1 implies #[trigger] right(highlighter, ps, w, x) by {
    if n > 0 { assert(right(highlighter, ps, m, n - 1)); assert(same_at(ps, m, w, n - 1)); }
    if x < n { assert(right(highlighter, ps, m, x)); assert(same_at(ps, m, w, x)); if x > 0 { assert(right(highlighter, ps, m, x - 1)); assert(same_at(ps, m, w, x - 1)); } }
}
assert forall|x: int| n + 1 <= x < ps.len() implies #[trigger] same_at(ps, m0, w, x) by { assert(same_at(ps, m0, m, x)); assert(same_at(ps, m, w, x)); }
if n > start_idx && old_state == Some(state) {
    assert(same_at(ps, m0, m, n));
    assert(n >= j); assert(w[ps[n].0 as usize].state == m0[ps[n].0 as usize].state);
    assert forall|x: int| n + 1 <= x < ps.len() implies #[trigger] right(highlighter, ps, w, x) by { assert(right(highlighter, ps, m0, x)); assert(same_at(ps, m0, w, x)); if x > n + 1 { assert(same_at(ps, m0, w, x - 1)); assert(right(highlighter, ps, m0, x - 1)); } }
}
//@ end
//@ fn crates/public_api/src/highlight.rs TextDocumentInner::rehighlight_affected
requires
    old(self).highlight is Some ==> forall|k: int| #[trigger] holds(paras(old(self).ctx), old(self).ctx, k, position)
        ==> exists|j: int| #[trigger] stale(old(self).highlight->Some_0.highlighter, paras(old(self).ctx), old(self).highlight->Some_0.blocks@, k, j),
ensures
    final(self).ctx == old(self).ctx, final(self).highlight is Some <==> old(self).highlight is Some,
    old(self).highlight is Some
        ==> final(self).highlight->Some_0.highlighter == old(self).highlight->Some_0.highlighter
        && forall|i: int| 0 <= i < paras(old(self).ctx).len() ==> #[trigger] right(final(self).highlight->Some_0.highlighter, paras(old(self).ctx), final(self).highlight->Some_0.blocks@, i),
//@ rw self.ctx.db_context.get_store() => self.ctx.get_store()
//@ rw block_commands::get_block(&self.ctx, id).ok().flatten() => get_block(&self.ctx, id)
//@ rw crate::inner::refresh_block_position(&mut dto, store) => refresh_block_position(&mut dto, &store)
//@ rw blocks.first().map_or(0, |(id, _)| $b) => std_map_or(blocks.first(), 0, closure« -> (r: usize) ensures r == x.0 as usize»(|x: &(u64, String)| { let (id, _) = x; $b }))
//@ rw blocks.iter().rev().find_map(|(id, _)| $b) => std_rfind_map(&blocks, closure« -> (r: Option<usize>) ensures r == starting(here, x.0, position)»(|x: &(u64, String)| { let (id, _) = x; $b }), Ghost(g))
//@ rw $o.unwrap_or_else(|| $d) => match $o { Some(found) => found, None => $d }
//@ behind let store = $s;
//raw
let ghost here = self.ctx; let ghost ps = paras(here); let ghost g = |x: (u64, String)| starting(here, x.0, position);
proof { paras_unique(here); assert forall|m: int| 0 <= m < ps.len() implies g(blocks@[m]) == starting(here, (#[trigger] ps[m]).0, position) by { assert(blocks@[m].0 == ps[m].0); } }
//@ behind let target_bid = $s;
assert((exists|i: int| 0 <= i < ps.len() && #[trigger] g(blocks@[i]) == Some(target_bid) && forall|k: int| i < k < ps.len() ==> g(#[trigger] blocks@[k]) is None)
    || ((ps.len() > 0 ==> target_bid == blocks@[0].0 as usize) && forall|k: int| 0 <= k < ps.len() ==> g(#[trigger] blocks@[k]) is None));
//@ ahead self.rehighlight_from_block(target_bid);
assert forall|k: int| 0 <= k < ps.len() && #[trigger] ps[k].0 as usize == target_bid implies exists|j: int| #[trigger] stale(old(self).highlight->Some_0.highlighter, ps, old(self).highlight->Some_0.blocks@, k, j) by {
    let at = if exists|i: int| 0 <= i < ps.len() && #[trigger] g(blocks@[i]) == Some(target_bid) && forall|k: int| i < k < ps.len() ==> g(#[trigger] blocks@[k]) is None
        { choose|i: int| 0 <= i < ps.len() && #[trigger] g(blocks@[i]) == Some(target_bid) && forall|k: int| i < k < ps.len() ==> g(#[trigger] blocks@[k]) is None } else { 0 };
    assert(blocks@[at].0 == ps[at].0);
    assert(ps[at].0 as usize == target_bid);
    assert(k == at) by { if k != at { if k < at { assert(ps[k].0 != ps[at].0); } else { assert(ps[at].0 != ps[k].0); } } }
    assert(holds(ps, here, k, position)) by { assert forall|m: int| k < m < ps.len() implies start_of(here, (#[trigger] ps[m]).0) > position by { assert(g(blocks@[m]) is None); } }
}
//@ end
}
/// where the paragraph with this identifier starts
pub uninterp spec fn start_of(c: Ctx, id: u64) -> i64;
/// paragraph k is the last one that starts at or in front of the position, or the first one
pub open spec fn holds(ps: Seq<(u64, Seq<char>)>, c: Ctx, k: int, p: usize) -> bool {
    &&& 0 <= k < ps.len()
    &&& start_of(c, ps[k].0) <= p || k == 0
    &&& forall|i: int| k < i < ps.len() ==> start_of(c, (#[trigger] ps[i]).0) > p
}
pub open spec fn starting(c: Ctx, id: u64, p: usize) -> Option<usize> { if p >= start_of(c, id) { Some(id as usize) } else { None } }
#[verifier::external_body] // TRUSTED: iter().rev().find_map(f): the result of f for the last element it maps to Some
pub fn std_rfind_map<T, U, F: Fn(&T) -> Option<U>>(v: &Vec<T>, f: F, g: Ghost<spec_fn(T) -> Option<U>>) -> (r: Option<U>)
    requires forall|x: &T| f.requires((x,)), forall|x: &T, b: Option<U>| f.ensures((x,), b) ==> b == g@(*x),
    ensures r is Some ==> exists|i: int| 0 <= i < v@.len() && #[trigger] g@(v@[i]) == r && forall|k: int| i < k < v@.len() ==> g@(#[trigger] v@[k]) is None,
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> g@(#[trigger] v@[i]) is None,
{ v.iter().rev().find_map(f) }
pub struct BlockDto { pub id: u64, pub document_position: i64 }
#[verifier::external_body]
pub struct Store { x: u8 }
pub uninterp spec fn store_of(c: Ctx) -> Store;
impl Ctx {
    #[verifier::external_body] // TRUSTED: the store of the context
    pub fn get_store(&self) -> (r: Store) ensures r == store_of(*self) { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: the stored paragraph
pub fn get_block(c: &Ctx, id: &u64) -> (r: Option<BlockDto>) ensures r is Some, r->Some_0.id == *id { unimplemented!() }
#[verifier::external_body] // TRUSTED: positions come from the block offset index (contracts/block_offset_index.vrs)
pub fn refresh_block_position(d: &mut BlockDto, s: &Store) ensures final(d).id == old(d).id, forall|c: Ctx| *s == store_of(c) ==> final(d).document_position == #[trigger] start_of(c, old(d).id) && start_of(c, old(d).id) >= 0 { unimplemented!() }
/// Option::map_or
pub fn std_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures o is Some ==> f.ensures((o->Some_0,), r), o is None ==> r == d,
{ match o { Some(x) => f(x), None => d } }
#[verifier::external_body] // TRUSTED: iter().position(f): the first element that satisfies f
pub fn std_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F, pick: Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>)
    requires forall|x: &T| f.requires((x,)), forall|x: &T, b: bool| f.ensures((x,), b) ==> b == pick@(*x),
    ensures r is Some ==> r->Some_0 < v@.len() && pick@(v@[r->Some_0 as int]) && forall|i: int| 0 <= i < r->Some_0 ==> !pick@(#[trigger] v@[i]),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> !pick@(#[trigger] v@[i]),
{ v.iter().position(f) }
}
fn main() {}
