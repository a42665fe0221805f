global size_of usize == 8; // TRUSTED: 64-bit target
//@ rwtype Option<String> => Option<Str>
//@ rwtype Vec<String> => Names
//@ rwtype frontend::common::format_runs::CharacterFormat => CharacterFormat
// strings inside formats are left abstract
#[verifier::external_body]
pub struct Str { x: u8 }
impl Clone for Str {
    #[verifier::external_body] // TRUSTED: String::clone returns an equal string
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Names { x: u8 }
impl Clone for Names {
    #[verifier::external_body] // TRUSTED: Vec<String>::clone returns an equal list
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ item crates/common/src/entities.rs UnderlineStyle
//@ item crates/common/src/entities.rs CharVerticalAlignment
//@ item crates/public_api/src/lib.rs Color
//@ item crates/public_api/src/lib.rs TextFormat
//@ item crates/public_api/src/flow.rs FragmentContent
//@ item crates/common/src/format_runs.rs CharacterFormat
//@ item crates/common/src/format_runs.rs FormatRun
//@ item crates/common/src/format_runs.rs ImageAnchor
//@ item crates/common/src/format_runs.rs InlineContent
//@ item crates/common/src/format_runs.rs InlineSegment
//@ item crates/common/src/parser_tools/fragment_schema.rs FragmentElement
impl Clone for UnderlineStyle {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CharVerticalAlignment {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for InlineContent {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn no_names() -> Names;
/// no formatting
pub open spec fn plain_format() -> CharacterFormat {
    CharacterFormat { font_family: None, font_point_size: None, font_weight: None, font_bold: None, font_italic: None, font_underline: None,
        font_overline: None, font_strikeout: None, letter_spacing: None, word_spacing: None, anchor_href: None, anchor_names: no_names(),
        is_anchor: None, tooltip: None, underline_style: None, vertical_alignment: None }
}
/// as the public interface shows it
pub open spec fn text_format(f: CharacterFormat) -> TextFormat {
    TextFormat { font_family: f.font_family, font_point_size: as_u32(f.font_point_size), font_weight: as_u32(f.font_weight), font_bold: f.font_bold, font_italic: f.font_italic,
        font_underline: f.font_underline, font_overline: f.font_overline, font_strikeout: f.font_strikeout, letter_spacing: as_i32(f.letter_spacing), word_spacing: as_i32(f.word_spacing),
        underline_style: f.underline_style, vertical_alignment: f.vertical_alignment, anchor_href: f.anchor_href, anchor_names: f.anchor_names, is_anchor: f.is_anchor, tooltip: f.tooltip,
        foreground_color: None, background_color: None, underline_color: None }
}
pub open spec fn as_u32(x: Option<i64>) -> Option<u32> { match x { Some(v) => Some(v as u32), None => None } }
pub open spec fn as_i32(x: Option<i64>) -> Option<i32> { match x { Some(v) => Some(v as i32), None => None } }
#[verifier::truncate]
pub fn std_as_u32(x: Option<i64>) -> (r: Option<u32>) ensures r == as_u32(x) { match x { Some(v) => Some(v as u32), None => None } }
#[verifier::truncate]
pub fn std_as_i32(x: Option<i64>) -> (r: Option<i32>) ensures r == as_i32(x) { match x { Some(v) => Some(v as i32), None => None } }
impl CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(Default): None and no names
    pub fn default() -> (r: Self) ensures r == plain_format() { unimplemented!() }
}
impl TextFormat {
    #[verifier::external_body] // TRUSTED: derive(Default): None and no names
    pub fn default() -> (r: Self) ensures r == text_format(plain_format()) { unimplemented!() }
}
impl InlineSegment {
    #[verifier::external_body] // TRUSTED: derive(Default)
    pub fn default() -> (r: Self) { unimplemented!() }
}
//@ use text_bytes.vrs
//@ use run_spec.vrs
// ---- strings
#[verifier::external_body] // TRUSTED: slicing a str at character boundaries
pub fn std_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, on_char(s@, a as int), on_char(s@, b as int),
    ensures r@ == s@.subrange(char_of(s@, a as int), char_of(s@, b as int)),
{ &s[a..b] }
pub uninterp spec fn utf8(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] // TRUSTED: the bytes of a str are the UTF-8 of its characters
pub fn std_as_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures utf8(r@) == s@, r@.len() == blen(s@) { s.as_bytes() }
#[verifier::external_body] // TRUSTED: UTF-8 read between character boundaries
pub fn std_byte_slice<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8])
    requires a <= b, on_char(utf8(s@), a as int), on_char(utf8(s@), b as int),
    ensures utf8(r@) == utf8(s@).subrange(char_of(utf8(s@), a as int), char_of(utf8(s@), b as int)),
{ &s[a..b] }
#[verifier::external_body] // TRUSTED: str::from_utf8
pub fn std_from_utf8(s: &[u8]) -> (r: String) ensures r@ == utf8(s@) { std::str::from_utf8(s).unwrap().to_string() }
#[verifier::external_body] // TRUSTED: str::to_string
pub fn std_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] // TRUSTED: str::chars().count()
pub fn std_char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] // TRUSTED: str::chars
pub fn std_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body] // TRUSTED: collecting characters into a String
pub fn std_collect(v: &Vec<char>, a: usize, b: usize) -> (r: String)
    requires a <= b <= v@.len(),
    ensures r@ == v@.subrange(a as int, b as int),
{ v[a..b].iter().collect() }
#[verifier::external_body] // TRUSTED: String::push_str appends
pub fn std_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] // TRUSTED: String::push appends one character
pub fn std_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] // TRUSTED: String::is_empty
pub fn std_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] // TRUSTED: String::clone
pub fn std_clone_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] // TRUSTED: Vec::with_capacity
pub fn std_with_capacity<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
pub fn sat_sub(x: usize, y: usize) -> (r: usize) ensures r == if x >= y { x - y } else { 0 } { if x >= y { x - y } else { 0 } }
/// slice::Iter with Peekable
pub struct Peek<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> Peek<'a, T> {
    pub open spec fn ok(&self) -> bool { self.i <= self.s@.len() }
    pub fn new(s: &'a [T]) -> (r: Self) ensures r.s@ == s@, r.i == 0, r.ok() { Peek { s, i: 0 } }
    pub fn peek(&self) -> (r: Option<&'a T>) requires self.ok(), ensures r is Some <==> self.i < self.s@.len(), r is Some ==> *r->0 == self.s@[self.i as int]
    { if self.i < self.s.len() { Some(&self.s[self.i]) } else { None } }
    pub fn next(&mut self) -> (r: Option<&'a T>) requires old(self).ok(), ensures final(self).ok(), final(self).s == old(self).s, final(self).i == if old(self).i < old(self).s@.len() { old(self).i + 1 } else { old(self).i as int },
    { if self.i < self.s.len() { let r = &self.s[self.i]; self.i = self.i + 1; Some(r) } else { None } }
    pub fn rest(self) -> (r: Vec<&'a T>) requires self.ok(), ensures r@.len() == self.s@.len() - self.i, forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.s@[self.i + k]
    {
        let mut v: Vec<&'a T> = Vec::new();
        let mut k = self.i;
        while k < self.s.len()
            invariant self.i <= k <= self.s@.len(), v@.len() == k - self.i, forall|q: int| 0 <= q < v@.len() ==> *(#[trigger] v@[q]) == self.s@[self.i + q],
            decreases self.s@.len() - k
        { v.push(&self.s[k]); k = k + 1; }
        v
    }
}

// ---- the specification: the characters of a paragraph, each with its format
pub open spec fn spread<F>(t: Seq<char>, f: F) -> Seq<(char, F)> { Seq::new(t.len(), |k: int| (t[k], f)) }
/// pieces one after the other
pub open spec fn expand<F>(p: Seq<(Seq<char>, F)>) -> Seq<(char, F)>
    decreases p.len()
{ if p.len() == 0 { seq![] } else { expand(p.drop_last()) + spread(p.last().0, p.last().1) } }
pub open spec fn or_plain(o: Option<CharacterFormat>) -> CharacterFormat { match o { Some(f) => f, None => plain_format() } }
/// the paragraph: character k has the format of the run over its first byte
pub open spec fn written(t: Seq<char>, runs: Seq<FormatRun>) -> Seq<(char, CharacterFormat)> { Seq::new(t.len(), |k: int| (t[k], or_plain(fmt_at(runs, blen(t.take(k)) as int)))) }
pub open spec fn on_chars(runs: Seq<FormatRun>, t: Seq<char>) -> bool {
    forall|i: int| 0 <= i < runs.len() ==> on_char(t, (#[trigger] runs[i]).byte_start as int) && on_char(t, runs[i].byte_end as int)
}
/// the runs of a paragraph
pub open spec fn runs_of(runs: Seq<FormatRun>, t: Seq<char>) -> bool { wf(runs) && within(runs, 0, blen(t) as int) && on_chars(runs, t) && blen(t) <= u32::MAX }
pub proof fn ends(t: Seq<char>)
    ensures at(t, 0, 0), at(t, blen(t) as int, t.len() as int), char_of(t, 0) == 0, char_of(t, blen(t) as int) == t.len(), on_char(t, 0), on_char(t, blen(t) as int), t.len() <= blen(t),
{ assert(t.take(t.len() as int) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); blen_ge(Seq::<char>::empty()); blen_ge(t); at_one(t, 0, 0); at_one(t, blen(t) as int, t.len() as int); }
pub proof fn char_at(t: Seq<char>, b: int)
    requires on_char(t, b),
    ensures at(t, b, char_of(t, b)), 0 <= char_of(t, b) <= t.len(), 0 <= b <= blen(t),
{ let k = choose|k: int| at(t, b, k); at_one(t, b, k); blen_mono(t, k, k); }
pub proof fn ordered_at(t: Seq<char>, a: int, b: int)
    requires on_char(t, a), on_char(t, b), a <= b,
    ensures char_of(t, a) <= char_of(t, b), a < b ==> char_of(t, a) < char_of(t, b), char_of(t, b) - char_of(t, a) <= b - a,
{
    char_at(t, a); char_at(t, b);
    let (i, j) = (char_of(t, a), char_of(t, b));
    if j < i { blen_mono(t, j, i); }
    blen_mono(t, i, j); blen_ge(t.subrange(i, j));
}
pub proof fn piece(t: Seq<char>, runs: Seq<FormatRun>, a: int, b: int, f: CharacterFormat)
    requires
        on_char(t, a), on_char(t, b), a <= b,
        forall|q: int| a <= q < b ==> or_plain(#[trigger] fmt_at(runs, q)) == f,
    ensures written(t, runs).take(char_of(t, a)) + spread(t.subrange(char_of(t, a), char_of(t, b)), f) == written(t, runs).take(char_of(t, b)), char_of(t, a) <= char_of(t, b) <= t.len(),
{
    char_at(t, a); char_at(t, b); ordered_at(t, a, b);
    let (i, j) = (char_of(t, a), char_of(t, b));
    assert forall|k: int| i <= k < j implies written(t, runs)[k] == (t[k], f) by { blen_mono(t, i, k); blen_mono(t, k, j); }
    assert(written(t, runs).take(i) + spread(t.subrange(i, j), f) =~= written(t, runs).take(j));
}
/// nothing is formatted between two runs, before the first and behind the last
pub proof fn gap(t: Seq<char>, runs: Seq<FormatRun>, k: int, a: int, b: int)
    requires runs_of(runs, t), 0 <= k <= runs.len(), k > 0 ==> a >= runs[k - 1].byte_end, k < runs.len() ==> b <= runs[k].byte_start,
    ensures forall|q: int| a <= q < b ==> or_plain(#[trigger] fmt_at(runs, q)) == plain_format(),
{
    assert forall|q: int| a <= q < b implies or_plain(#[trigger] fmt_at(runs, q)) == plain_format() by {
        assert forall|i: int| 0 <= i < runs.len() implies !covers(#[trigger] runs[i], q) by {
            if i < k { if i < k - 1 { assert(runs[i].byte_end <= runs[k - 1].byte_start); assert(runs[k - 1].byte_start < runs[k - 1].byte_end); } }
            else if i > k { assert(runs[k].byte_end <= runs[i].byte_start); assert(runs[k].byte_start < runs[k].byte_end); }
        }
        fmt_at_miss(runs, q);
    }
}
pub proof fn in_run(t: Seq<char>, runs: Seq<FormatRun>, k: int)
    requires runs_of(runs, t), 0 <= k < runs.len(),
    ensures forall|q: int| runs[k].byte_start <= q < runs[k].byte_end ==> or_plain(#[trigger] fmt_at(runs, q)) == runs[k].format,
{
    assert forall|q: int| runs[k].byte_start <= q < runs[k].byte_end implies or_plain(#[trigger] fmt_at(runs, q)) == runs[k].format by { fmt_at_hit(runs, k, q); }
}

// ---- the inline segments of a paragraph
pub open spec fn seg_format(s: InlineSegment) -> CharacterFormat {
    CharacterFormat { font_family: s.fmt_font_family, font_point_size: s.fmt_font_point_size, font_weight: s.fmt_font_weight, font_bold: s.fmt_font_bold, font_italic: s.fmt_font_italic,
        font_underline: s.fmt_font_underline, font_overline: s.fmt_font_overline, font_strikeout: s.fmt_font_strikeout, letter_spacing: s.fmt_letter_spacing, word_spacing: s.fmt_word_spacing,
        anchor_href: s.fmt_anchor_href, anchor_names: s.fmt_anchor_names, is_anchor: s.fmt_is_anchor, tooltip: s.fmt_tooltip, underline_style: s.fmt_underline_style, vertical_alignment: s.fmt_vertical_alignment }
}
pub open spec fn seg_piece(s: InlineSegment) -> (Seq<char>, CharacterFormat) { (match s.content { InlineContent::Text(t) => t@, _ => seq![] }, seg_format(s)) }
pub open spec fn seg_pieces(s: Seq<InlineSegment>) -> Seq<(Seq<char>, CharacterFormat)> { s.map_values(|x: InlineSegment| seg_piece(x)) }
pub open spec fn texts(s: Seq<InlineSegment>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).content is Text && s[i].content->Text_0@.len() > 0 }
pub proof fn seg_push(s: Seq<InlineSegment>, x: InlineSegment)
    ensures expand(seg_pieces(s.push(x))) == expand(seg_pieces(s)) + spread(seg_piece(x).0, seg_piece(x).1),
{ assert(seg_pieces(s.push(x)).drop_last() =~= seg_pieces(s)); }
//@ fn crates/common/src/format_runs.rs apply_character_format_to_segment
ensures final(seg).content == old(seg).content, seg_format(*final(seg)) == *fmt,
//@ end
//@ fn crates/common/src/format_runs.rs inline_segments_view>emit_text
requires on_char(utf8(bytes@), start as int), on_char(utf8(bytes@), end as int),
ensures
    start >= end ==> final(out)@ == old(out)@,
    start < end ==> final(out)@ == old(out)@.push(final(out)@.last()) && final(out)@.last().content is Text
        && seg_piece(final(out)@.last()) == (utf8(bytes@).subrange(char_of(utf8(bytes@), start as int), char_of(utf8(bytes@), end as int)), fmt),
//@ rw std::str::from_utf8($x).expect($m).to_string() => std_from_utf8($x)
//@ rw &bytes[$a..$b] => std_byte_slice(bytes, $a, $b)
//@ rw Default::default() => InlineSegment::default()
//@ end
//@ fn crates/common/src/format_runs.rs inline_segments_view>emit_image
//@ rw Default::default() => InlineSegment::default()
//@ end
//@ fn crates/common/src/format_runs.rs inline_segments_view
requires runs_of(runs@, plain_text@), images@.len() == 0,
ensures texts(r@), expand(seg_pieces(r@)) == written(plain_text@, runs@),
//@ ret r
//@ rw plain_text.as_bytes() => std_as_bytes(plain_text)
//@ rw images.iter().peekable() => Peek::new(images)
//@ rwstmt let emit_text = $x; =>
//@ rwstmt let emit_image = $x; =>
//@ rwstmt for img in img_iter { $b } => for img in img_iter.rest() { $b }
//@ top
//raw
let ghost t = plain_text@; let ghost w = written(t, runs@);
proof { ends(t); assert(w.take(0) =~= Seq::<(char, CharacterFormat)>::empty()); }
//@ loop 0 before
assert(expand(seg_pieces(out@)) =~= w.take(0));
//@ loop 0 it
invariant
    it.seq().len() == runs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == runs@[i],
    t == plain_text@, w == written(t, runs@), runs_of(runs@, t), utf8(bytes@) == t, images@.len() == 0, img_iter.s@ == images@, img_iter.i == 0, bytes@.len() == blen(t),
    on_char(t, cursor as int), cursor == if it.index@ == 0 { 0 } else { runs@[it.index@ - 1].byte_end },
    texts(out@), expand(seg_pieces(out@)) == w.take(char_of(t, cursor as int)),
//@ loop 0 top
//raw
let ghost o0 = out@; let ghost c0 = cursor; let ghost n = it.index@ as int;
proof {
    assert(*run == runs@[n]); assert(on_char(t, runs@[n].byte_start as int)); assert(runs@[n].byte_start < runs@[n].byte_end);
    if n > 0 { assert(runs@[n - 1].byte_end <= runs@[n].byte_start); }
    gap(t, runs@, n, c0 as int, runs@[n].byte_start as int); in_run(t, runs@, n);
    piece(t, runs@, c0 as int, runs@[n].byte_start as int, plain_format());
    piece(t, runs@, runs@[n].byte_start as int, runs@[n].byte_end as int, runs@[n].format);
    ordered_at(t, c0 as int, runs@[n].byte_start as int); ordered_at(t, runs@[n].byte_start as int, runs@[n].byte_end as int);
    char_at(t, c0 as int); char_at(t, runs@[n].byte_start as int); char_at(t, runs@[n].byte_end as int);
}
//@ loop 1
invariant images@.len() == 0, img_iter.s@ == images@, img_iter.i == 0, img_iter.s@.len() == 0, out@ == o0, cursor == c0,
decreases 0int
//@ after emit_text 1
seg_push(o0, out@.last());
//@ before emit_text 2
//raw
let ghost o2 = out@;
proof { assert(expand(seg_pieces(out@)) == w.take(char_of(t, run.byte_start as int))); }
//@ loop 0 bottom
seg_push(o2, out@.last());
assert(seg_piece(out@.last()).1 == runs@[n].format);
//@ loop 2 before
//raw
let ghost o3 = out@; let ghost c3 = cursor;
//@ loop 2 it
invariant it.seq().len() == 0, out@ == o3, cursor == c3,
//@ before emit_text 4
gap(t, runs@, runs@.len() as int, cursor as int, blen(t) as int);
piece(t, runs@, cursor as int, blen(t) as int, plain_format());
ordered_at(t, cursor as int, blen(t) as int);
//@ after emit_text 4
seg_push(o3, out@.last()); assert(w.take(t.len() as int) =~= w);
assert(expand(seg_pieces(out@)) == w);
//@ bottom
ends(t); char_at(t, cursor as int);
assert(w.take(t.len() as int) =~= w);
//@ end

// ---- the fragments of a paragraph, as its handle and its snapshots show them
pub open spec fn frag_piece(f: FragmentContent) -> (Seq<char>, TextFormat) { match f { FragmentContent::Text { text, format, .. } => (text@, format), FragmentContent::Image { format, .. } => (seq![], format) } }
pub open spec fn frag_pieces(s: Seq<FragmentContent>) -> Seq<(Seq<char>, TextFormat)> { s.map_values(|x: FragmentContent| frag_piece(x)) }
/// characters shown by the first k fragments
pub open spec fn shown_by(s: Seq<FragmentContent>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { shown_by(s.drop_last()) + frag_piece(s.last()).0.len() } }
/// every fragment is a text that is not empty and says where it stands and how long it is
pub open spec fn placed(s: Seq<FragmentContent>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Text && s[i]->Text_length == s[i]->Text_text@.len() && s[i]->Text_length > 0 && s[i]->Text_offset == shown_by(s.take(i))
}
/// the paragraph as the interface shows it
pub open spec fn displayed(t: Seq<char>, runs: Seq<FormatRun>) -> Seq<(char, TextFormat)> { Seq::new(t.len(), |k: int| (written(t, runs)[k].0, text_format(written(t, runs)[k].1))) }
pub proof fn frag_push(s: Seq<FragmentContent>, x: FragmentContent)
    ensures
        expand(frag_pieces(s.push(x))) == expand(frag_pieces(s)) + spread(frag_piece(x).0, frag_piece(x).1),
        shown_by(s.push(x)) == shown_by(s) + frag_piece(x).0.len(),
        placed(s) && x is Text && x->Text_length == x->Text_text@.len() && x->Text_length > 0 && x->Text_offset == shown_by(s) ==> placed(s.push(x)),
{
    assert(frag_pieces(s.push(x)).drop_last() =~= frag_pieces(s)); assert(s.push(x).drop_last() =~= s);
    assert forall|i: int| 0 <= i < s.len() implies s.push(x).take(i) == s.take(i) by { assert(s.push(x).take(i) =~= s.take(i)); }
    assert(s.push(x).take(s.len() as int) =~= s);
}
pub proof fn frag_step(t: Seq<char>, runs: Seq<FormatRun>, a: int, b: int, f: CharacterFormat)
    requires on_char(t, a), on_char(t, b), a <= b, forall|q: int| a <= q < b ==> or_plain(#[trigger] fmt_at(runs, q)) == f,
    ensures displayed(t, runs).take(char_of(t, a)) + spread(t.subrange(char_of(t, a), char_of(t, b)), text_format(f)) == displayed(t, runs).take(char_of(t, b)), char_of(t, a) <= char_of(t, b) <= t.len(),
{
    piece(t, runs, a, b, f); char_at(t, a);
    let (i, j) = (char_of(t, a), char_of(t, b));
    assert forall|k: int| i <= k < j implies displayed(t, runs)[k] == (t[k], text_format(f)) by { assert(written(t, runs).take(j)[k] == spread(t.subrange(i, j), f)[k - i]); }
    assert(displayed(t, runs).take(i) + spread(t.subrange(i, j), text_format(f)) =~= displayed(t, runs).take(j));
}
/// the state between two fragments: everything up to `cursor` is shown
pub open spec fn upto(s: Seq<FragmentContent>, t: Seq<char>, runs: Seq<FormatRun>, cursor: int, chars: int) -> bool {
    on_char(t, cursor) && chars == char_of(t, cursor) && chars == shown_by(s) && placed(s) && expand(frag_pieces(s)) == displayed(t, runs).take(chars)
}
pub proof fn shown_step(s: Seq<FragmentContent>, t: Seq<char>, runs: Seq<FormatRun>, a: int, b: int, f: CharacterFormat, s2: Seq<FragmentContent>)
    requires upto(s, t, runs, a, char_of(t, a)), on_char(t, b), a <= b, forall|q: int| a <= q < b ==> or_plain(#[trigger] fmt_at(runs, q)) == f,
        a == b ==> s2 == s, a < b ==> s2 == s.push(s2.last()) && new_piece(s2.last(), t, a, b, text_format(f), shown_by(s) as int),
    ensures upto(s2, t, runs, b, char_of(t, b)),
{
    frag_step(t, runs, a, b, f); char_at(t, a); char_at(t, b); ordered_at(t, a, b);
    if a < b { frag_push(s, s2.last()); }
}
pub open spec fn new_piece(x: FragmentContent, t: Seq<char>, a: int, b: int, f: TextFormat, offset: int) -> bool {
    x is Text && x->Text_text@ == t.subrange(char_of(t, a), char_of(t, b)) && x->Text_format == f && x->Text_length == x->Text_text@.len() && x->Text_length > 0 && x->Text_offset == offset
}
pub uninterp spec fn run_id(block: u64, at: u32) -> u64;
#[verifier::external_body] // TRUSTED (identifiers of runs are not specified)
pub fn synth_element_id(block_id: u64, byte_start: u32) -> (r: u64) ensures r == run_id(block_id, byte_start) { unimplemented!() }
#[verifier::external_body] // TRUSTED (word starts are not specified here)
pub fn compute_word_starts(text: &str) -> Vec<u8> { unimplemented!() }
impl TextFormat {
//@ fn crates/public_api/src/convert.rs From for TextFormat::from
ensures r == text_format(*fmt),
//@ rename from
//@ ret r
//@ rw $x.map(|v| v as u32) => std_as_u32($x)
//@ rw $x.map(|v| v as i32) => std_as_i32($x)
//@ end
}
//@ fn crates/public_api/src/text_block.rs build_raw_fragments>emit_default_text
requires on_char(plain@, byte_a as int), on_char(plain@, byte_b as int), *old(char_offset) <= plain@.len(), blen(plain@) <= u32::MAX,
ensures
    byte_a >= byte_b ==> final(fragments)@ == old(fragments)@ && *final(char_offset) == *old(char_offset) && *final(byte_cursor) == *old(byte_cursor),
    byte_a < byte_b ==> {
        &&& final(fragments)@ == old(fragments)@.push(final(fragments)@.last())
        &&& new_piece(final(fragments)@.last(), plain@, byte_a as int, byte_b as int, text_format(plain_format()), *old(char_offset) as int)
        &&& *final(char_offset) == *old(char_offset) + char_of(plain@, byte_b as int) - char_of(plain@, byte_a as int)
        &&& *final(byte_cursor) == byte_b
    },
//@ rw &plain[$a..$b] => std_slice(plain, $a, $b)
//@ rw text.chars().count() => std_char_count(text)
//@ rw text.to_string() => std_to_string(text)
//@ top
ends(plain@); if byte_a < byte_b { ordered_at(plain@, byte_a as int, byte_b as int); char_at(plain@, byte_a as int); char_at(plain@, byte_b as int); }
//@ end
//@ fn crates/public_api/src/text_block.rs build_raw_fragments>emit_run_text
requires on_char(plain@, byte_a as int), on_char(plain@, byte_b as int), *old(char_offset) <= plain@.len(), blen(plain@) <= u32::MAX,
ensures
    byte_a >= byte_b ==> final(fragments)@ == old(fragments)@ && *final(char_offset) == *old(char_offset) && *final(byte_cursor) == *old(byte_cursor),
    byte_a < byte_b ==> {
        &&& final(fragments)@ == old(fragments)@.push(final(fragments)@.last())
        &&& new_piece(final(fragments)@.last(), plain@, byte_a as int, byte_b as int, text_format(*run_format), *old(char_offset) as int)
        &&& *final(char_offset) == *old(char_offset) + char_of(plain@, byte_b as int) - char_of(plain@, byte_a as int)
        &&& *final(byte_cursor) == byte_b
    },
//@ rw &plain[$a..$b] => std_slice(plain, $a, $b)
//@ rw text.chars().count() => std_char_count(text)
//@ rw text.to_string() => std_to_string(text)
//@ top
ends(plain@); if byte_a < byte_b { ordered_at(plain@, byte_a as int, byte_b as int); char_at(plain@, byte_a as int); char_at(plain@, byte_b as int); }
//@ end
//@ fn crates/public_api/src/text_block.rs build_raw_fragments
requires runs_of(runs@, plain@), images@.len() == 0,
ensures placed(r@), expand(frag_pieces(r@)) == displayed(plain@, runs@), shown_by(r@) == plain@.len(),
//@ rename raw_fragments
//@ from let mut fragments = $x;
//@ to emit_default_text(&mut fragments, plain, block_id, byte_cursor, plain.len() as u32, $r);
//@ sig (runs: Vec<FormatRun>, images: Vec<ImageAnchor>, plain: &str, block_id: u64) -> Vec<FragmentContent>
//@ yields fragments
//@ ret r
//@ rw Vec::with_capacity($n) => std_with_capacity()
//@ rw images.iter().peekable() => Peek::new(images.as_slice())
//@ rw img.name.clone() => std_clone_string(&img.name)
//@ rw plain.len() => std_len(plain)
//@ rwstmt for img in img_iter { $b } => for img in img_iter.rest() { $b }
//@ top
//raw
let ghost t = plain@; let ghost w = displayed(t, runs@);
proof { ends(t); }
//@ loop 0 before
assert(expand(frag_pieces(fragments@)) =~= w.take(0)); assert(shown_by(fragments@) == 0);
//@ loop 0 it
invariant
    it.seq().len() == runs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == runs@[i],
    t == plain@, runs_of(runs@, t), images@.len() == 0, img_iter.s@ == images@, img_iter.i == 0,
    byte_cursor == if it.index@ == 0 { 0 } else { runs@[it.index@ - 1].byte_end },
    upto(fragments@, t, runs@, byte_cursor as int, char_offset as int),
//@ loop 0 top
//raw
let ghost o0 = fragments@; let ghost c0 = byte_cursor; let ghost n = it.index@ as int;
proof {
    assert(*run == runs@[n]); assert(on_char(t, runs@[n].byte_start as int)); assert(runs@[n].byte_start < runs@[n].byte_end);
    if n > 0 { assert(runs@[n - 1].byte_end <= runs@[n].byte_start); }
    gap(t, runs@, n, c0 as int, runs@[n].byte_start as int); in_run(t, runs@, n);
    ordered_at(t, c0 as int, runs@[n].byte_start as int); ordered_at(t, runs@[n].byte_start as int, runs@[n].byte_end as int);
    char_at(t, c0 as int); char_at(t, runs@[n].byte_start as int); char_at(t, runs@[n].byte_end as int);
}
//@ loop 1
invariant images@.len() == 0, img_iter.s@ == images@, img_iter.i == 0, img_iter.s@.len() == 0, fragments@ == o0, byte_cursor == c0, char_offset == char_of(t, c0 as int), run_cursor == run.byte_start,
decreases 0int
//@ after emit_default_text 2
shown_step(o0, t, runs@, c0 as int, run_cursor as int, plain_format(), fragments@);
//@ before emit_run_text 1
//raw
let ghost o2 = fragments@;
//@ after emit_run_text 1
shown_step(o2, t, runs@, run.byte_start as int, run.byte_end as int, run.format, fragments@);
//@ loop 2 before
//raw
let ghost o3 = fragments@; let ghost c3 = byte_cursor; let ghost k3 = char_offset;
//@ loop 2 it
invariant it.seq().len() == 0, fragments@ == o3, byte_cursor == c3, char_offset == k3,
//@ before emit_default_text 4
ends(t); gap(t, runs@, runs@.len() as int, c3 as int, blen(t) as int); char_at(t, c3 as int);
//@ after emit_default_text 4
shown_step(o3, t, runs@, c3 as int, blen(t) as int, plain_format(), fragments@);
assert(w.take(t.len() as int) =~= w);
//@ end
