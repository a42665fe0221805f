use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ rwtype crate::flow::CellRange => CellRange
pub struct CellRange { pub x: u8 }
//@ item crates/public_api/src/inner.rs CursorData
//@ item crates/public_api/src/lib.rs MoveMode
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/public_api/src/lib.rs MoveOperation
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/public_api/src/lib.rs SelectionType
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/document_inspection/src/dtos.rs DocumentStatsDto
//@ item crates/document_inspection/src/dtos.rs BlockInfoDto
//@ item crates/document_inspection/src/dtos.rs GetBlockAtPositionDto
//@ item crates/document_inspection/src/dtos.rs TextAtPositionDto
//@ item crates/document_inspection/src/dtos.rs GetTextAtPositionDto
//@ rwtype frontend::document_inspection::DocumentStatsDto => DocumentStatsDto
//@ rw frontend::document_inspection::DocumentStatsDto { $f } => DocumentStatsDto { $f }
//@ rw frontend::document_inspection::GetBlockAtPositionDto { $f } => GetBlockAtPositionDto { $f }
//@ rw frontend::document_inspection::GetTextAtPositionDto { $f } => GetTextAtPositionDto { $f }
//@ rw document_inspection_commands::get_document_stats(&inner.ctx) => self.doc.stats()
//@ rw document_inspection_commands::get_block_at_position(&inner.ctx, &$d) => self.doc.block_at(&$d)
//@ rw document_inspection_commands::get_text_at_position(&inner.ctx, &$d) => self.doc.text_at(&$d)
//@ rw $r.map(|$v| $e).unwrap_or($d) => (match $r { Ok($v) => $e, Err(_) => $d })
//@ rw $x.saturating_sub($y) => sat_sub($x, $y)
//@ rwstmt let inner = self.doc.lock(); =>
//@ rwstmt drop(inner); =>
//@ rw self.data.lock().position => self.data.read().position
//@ rw self.data.lock().anchor => self.data.read().anchor
//@ rwstmt let d = self.data.lock(); => let d = self.data.read();
//@ rwstmt let data = self.data.lock(); => let data = self.data.read();
//@ rw std_graphemes(&text).next() => std_first_grapheme(&text)
//@ rw std_graphemes(&text).next_back() => std_last_grapheme(&text)
//@ rw text.graphemes(true) => std_graphemes(&text)
//@ rw text.unicode_word_indices() => std_words(&text)
//@ rw g.chars().count() => std_char_count(g.as_str())
//@ rw g.is_empty() => std_is_empty(&g)
//@ rw word.chars().count() => std_char_count(word.as_str())
//@ rw text[..$b].chars().count() => std_count_to(&text, $b)
pub fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub fn std_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
//@ use text_bytes.vrs
//@ use lines.vrs
// ---- clusters and words of a text
pub uninterp spec fn graphemes(t: Seq<char>) -> Seq<Seq<char>>;
/// characters in the first j clusters
pub open spec fn gl(g: Seq<Seq<char>>, j: int) -> int
    decreases j
{ if j <= 0 { 0 } else { gl(g, j - 1) + g[j - 1].len() } }
#[verifier::external_body] // TRUSTED: extended grapheme clusters are not empty and make up the text; cutting a text at their boundaries leaves them as they are; a line feed is one of its own (UAX #29)
pub proof fn clusters(t: Seq<char>)
    ensures
        forall|j: int| 0 <= j < graphemes(t).len() ==> (#[trigger] graphemes(t)[j]).len() > 0,
        gl(graphemes(t), graphemes(t).len() as int) == t.len(),
        forall|j: int| 0 <= j <= graphemes(t).len() ==> graphemes(t.take(#[trigger] gl(graphemes(t), j))) == graphemes(t).take(j) && graphemes(t.skip(gl(graphemes(t), j))) == graphemes(t).skip(j),
        t.len() > 0 && t[0] == '\n' ==> graphemes(t)[0].len() == 1,
{ }
/// a boundary between clusters
pub open spec fn gstop(t: Seq<char>, i: int) -> bool { exists|j: int| 0 <= j <= graphemes(t).len() && #[trigger] gl(graphemes(t), j) == i }
pub proof fn gl_mono(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= graphemes(t).len(),
    ensures 0 <= gl(graphemes(t), i), gl(graphemes(t), i) <= gl(graphemes(t), j) <= t.len(), i < j ==> gl(graphemes(t), i) < gl(graphemes(t), j),
    decreases graphemes(t).len() - i,
{
    clusters(t); gl_step(t, i, j); gl_step(t, j, graphemes(t).len() as int); gl_step(t, 0, i);
}
pub proof fn gl_step(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= graphemes(t).len(),
    ensures gl(graphemes(t), i) <= gl(graphemes(t), j), i < j ==> gl(graphemes(t), i) < gl(graphemes(t), j),
    decreases j,
{ clusters(t); if i < j { gl_step(t, i, j - 1); assert(graphemes(t)[j - 1].len() > 0); } }
pub uninterp spec fn words(t: Seq<char>) -> Seq<(int, int)>;
pub uninterp spec fn alnum(c: char) -> bool;
pub uninterp spec fn alpha(c: char) -> bool;
pub uninterp spec fn numeric(c: char) -> bool;
#[verifier::external_body] // TRUSTED: the words of a text (unicode_words: the segments with a letter or digit) are in order, apart and not empty; a line feed is no letter
pub proof fn wordy(t: Seq<char>)
    ensures
        forall|i: int| 0 <= i < words(t).len() ==> 0 <= (#[trigger] words(t)[i]).0 < words(t)[i].1 <= t.len(),
        forall|i: int, j: int| 0 <= i < j < words(t).len() ==> (#[trigger] words(t)[i]).1 <= (#[trigger] words(t)[j]).0,
        forall|k: int| 0 <= k < t.len() && alnum(#[trigger] t[k]) ==> exists|i: int| 0 <= i < words(t).len() && (#[trigger] words(t)[i]).0 <= k < words(t)[i].1,
        forall|i: int| 0 <= i < words(t).len() ==> exists|k: int| (#[trigger] words(t)[i]).0 <= k < words(t)[i].1 && alnum(#[trigger] t[k]),
        !alnum('\n'),
{ }
pub open spec fn std_strings(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
#[verifier::external_body] // TRUSTED: UnicodeSegmentation::graphemes
pub fn std_graphemes(t: &String) -> (r: Vec<String>) ensures std_strings(r@) == graphemes(t@) { unimplemented!() }
pub fn std_first_grapheme(t: &String) -> (r: Option<String>) ensures r is Some <==> graphemes(t@).len() > 0, r is Some ==> r->0@ == graphemes(t@)[0]
{ let mut v = std_graphemes(t); assert(std_strings(v@).len() == v@.len()); if v.len() > 0 { assert(std_strings(v@)[0] == v@[0]@); Some(std_clone_string(&v[0])) } else { None } }
pub fn std_last_grapheme(t: &String) -> (r: Option<String>) ensures r is Some <==> graphemes(t@).len() > 0, r is Some ==> r->0@ == graphemes(t@).last()
{ let mut v = std_graphemes(t); assert(std_strings(v@).len() == v@.len()); if v.len() > 0 { assert(std_strings(v@)[v@.len() - 1] == v@[v@.len() - 1]@); Some(std_clone_string(&v[v.len() - 1])) } else { None } }
#[verifier::external_body] // TRUSTED: UnicodeSegmentation::unicode_word_indices
pub fn std_words(t: &String) -> (r: Vec<(usize, String)>)
    ensures
        r@.len() == words(t@).len(),
        forall|i: int| 0 <= i < r@.len() ==> at(t@, (#[trigger] r@[i]).0 as int, words(t@)[i].0) && r@[i].1@ == t@.subrange(words(t@)[i].0, words(t@)[i].1),
{ unimplemented!() }
#[verifier::external_body] // TRUSTED: slicing a str at a character boundary and counting
pub fn std_count_to(t: &String, b: usize) -> (r: usize) requires on_char(t@, b as int), ensures r == char_of(t@, b as int) { t[..b].chars().count() }
#[verifier::external_body] // TRUSTED: str::chars().count()
pub fn std_char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] // TRUSTED: str::chars
pub fn std_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body] // TRUSTED: String::is_empty
pub fn std_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] // TRUSTED: String::clone
pub fn std_clone_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] // TRUSTED: char::is_alphanumeric
pub fn std_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
#[verifier::external_body] // TRUSTED: char::is_alphabetic and char::is_numeric, of which nothing is known
pub fn std_alpha(c: char) -> (r: bool) ensures r == alpha(c) { c.is_alphabetic() }
#[verifier::external_body] // TRUSTED
pub fn std_numeric(c: char) -> (r: bool) ensures r == numeric(c) { c.is_numeric() }
// ---- positions
pub open spec fn line_end(l: Lines, k: int) -> int { at_line(l, k) + l[k].len() }
/// the paragraph of a position; the break behind a paragraph that is not empty belongs to the next one
pub open spec fn is_para(l: Lines, p: int, k: int) -> bool {
    &&& 0 <= k < l.len()
    &&& k == l.len() - 1 || p < line_end(l, k) || (l[k].len() == 0 && p == line_end(l, k))
    &&& k == 0 || p > line_end(l, k - 1) || (l[k - 1].len() > 0 && p == line_end(l, k - 1))
}
pub proof fn para_one(l: Lines, p: int, j: int, k: int)
    requires is_para(l, p, j), is_para(l, p, k),
    ensures j == k,
{ if j < k { lines_up(l, j, k - 1); } else if k < j { lines_up(l, k, j - 1); } }
pub open spec fn total(l: Lines) -> int { joined(l).len() as int }
pub proof fn para_in(l: Lines, p: int, k: int)
    requires is_para(l, p, k), 0 <= p <= total(l),
    ensures 0 <= k < l.len(), at_line(l, k) <= p <= line_end(l, k) || (k > 0 && p == at_line(l, k) - 1 && l[k - 1].len() > 0), line_end(l, k) <= total(l), 0 <= at_line(l, k),
        k > 0 ==> line_end(l, k - 1) == at_line(l, k) - 1, joined(l).subrange(at_line(l, k), line_end(l, k)) == l[k],
{ line_at(l, k); if k > 0 { next_line(l, k - 1); line_at(l, k - 1); } }
/// a position inside a paragraph, before its end, is of that paragraph
pub proof fn para_of(l: Lines, p: int, k: int)
    requires 0 <= k < l.len(), at_line(l, k) <= p < line_end(l, k) || (p == line_end(l, k) && (l[k].len() == 0 || k == l.len() - 1)),
    ensures is_para(l, p, k),
{ if k > 0 { next_line(l, k - 1); } }
/// a place where a cursor may rest: between two user-perceived characters of a paragraph
pub open spec fn stop_at(l: Lines, p: int, k: int) -> bool { 0 <= k < l.len() && at_line(l, k) <= p <= line_end(l, k) && gstop(l[k], p - at_line(l, k)) }
pub open spec fn stop(l: Lines, p: int) -> bool { exists|k: int| #[trigger] stop_at(l, p, k) }
pub open spec fn no_stop(l: Lines, a: int, b: int) -> bool { forall|q: int| a < q < b ==> !#[trigger] stop(l, q) }
pub proof fn stop_here(l: Lines, p: int, k: int)
    requires 0 <= k < l.len(), at_line(l, k) <= p <= line_end(l, k), stop(l, p),
    ensures stop_at(l, p, k),
{ let j = choose|j: int| stop_at(l, p, j); if j < k { lines_up(l, j, k); } else if k < j { lines_up(l, k, j); } }
/// between cluster boundaries j and j + 1 of a paragraph there is no other
pub proof fn between_stops(l: Lines, k: int, j: int)
    requires 0 <= k < l.len(), 0 <= j < graphemes(l[k]).len(),
    ensures ({ let (a, b) = (at_line(l, k) + gl(graphemes(l[k]), j), at_line(l, k) + gl(graphemes(l[k]), j + 1)); a < b <= line_end(l, k) && at_line(l, k) <= a && stop(l, a) && stop(l, b) && no_stop(l, a, b) }),
{
    let g = graphemes(l[k]); let s = at_line(l, k);
    gl_mono(l[k], j, j + 1); gl_mono(l[k], 0, j);
    assert(stop_at(l, s + gl(g, j), k)); assert(stop_at(l, s + gl(g, j + 1), k));
    assert forall|q: int| s + gl(g, j) < q < s + gl(g, j + 1) implies !#[trigger] stop(l, q) by {
        if stop(l, q) { stop_here(l, q, k); let i = choose|i: int| 0 <= i <= g.len() && #[trigger] gl(g, i) == q - s; if i <= j { gl_mono(l[k], i, j); } else { gl_mono(l[k], j + 1, i); } }
    }
}
/// the ends of a paragraph are stops
pub proof fn end_stops(l: Lines, k: int)
    requires 0 <= k < l.len(),
    ensures stop(l, at_line(l, k)), stop(l, line_end(l, k)),
{
    let g = graphemes(l[k]); clusters(l[k]);
    assert(gl(g, 0) == 0); assert(stop_at(l, at_line(l, k), k)); assert(stop_at(l, line_end(l, k), k));
}
pub open spec fn next_stop(l: Lines, p: int, r: int) -> bool { if p >= total(l) { r == p } else { p < r && stop(l, r) && no_stop(l, p, r) } }
pub open spec fn prev_stop(l: Lines, p: int, r: int) -> bool { if p <= 0 { r == 0 } else { 0 <= r < p && stop(l, r) && no_stop(l, r, p) } }
pub open spec fn snapped(l: Lines, p: int, r: int) -> bool { if p >= total(l) { r == p } else { p <= r <= total(l) && stop(l, r) && no_stop(l, p - 1, r) } }
/// n steps
pub open spec fn nexts(l: Lines, p: int, n: nat, r: int) -> bool
    decreases n
{ if n == 0 { r == p } else { exists|q: int| #[trigger] next_stop(l, p, q) && nexts(l, q, (n - 1) as nat, r) } }
pub open spec fn prevs(l: Lines, p: int, n: nat, r: int) -> bool
    decreases n
{ if n == 0 { r == p } else { exists|q: int| #[trigger] prev_stop(l, p, q) && prevs(l, q, (n - 1) as nat, r) } }

pub proof fn next_in(l: Lines, k: int, p: int, text: Seq<char>)
    requires 0 <= k < l.len(), at_line(l, k) <= p < line_end(l, k), text == joined(l).subrange(p, line_end(l, k)),
    ensures graphemes(text).len() > 0, 0 < graphemes(text)[0].len() <= text.len(), stop(l, p) ==> next_stop(l, p, p + graphemes(text)[0].len()),
{
    hide(joined);
    let t = l[k]; let g = graphemes(t); let s = at_line(l, k);
    line_at(l, k);
    assert(text =~= joined(l).subrange(s, line_end(l, k)).skip(p - s));
    assert(text == t.skip(p - s));
    clusters(text);
    if graphemes(text).len() == 0 { assert(gl(graphemes(text), 0) == 0); }
    gl_mono(text, 0, 1); assert(gl(graphemes(text), 1) == gl(graphemes(text), 0) + graphemes(text)[0].len());
    if stop(l, p) {
        stop_here(l, p, k); clusters(t);
        let j = choose|j: int| 0 <= j <= g.len() && #[trigger] gl(g, j) == p - s;
        assert(graphemes(t.skip(gl(g, j))) == g.skip(j));
        assert(graphemes(text)[0] == g[j]);
        between_stops(l, k, j); assert(gl(g, j + 1) == gl(g, j) + g[j].len());
    }
}
pub proof fn prev_in(l: Lines, k: int, p: int, text: Seq<char>)
    requires 0 <= k < l.len(), at_line(l, k) < p <= line_end(l, k), text == joined(l).subrange(at_line(l, k), p),
    ensures graphemes(text).len() > 0, 0 < graphemes(text).last().len() <= text.len(), stop(l, p) ==> prev_stop(l, p, p - graphemes(text).last().len()),
{
    hide(joined);
    let t = l[k]; let g = graphemes(t); let s = at_line(l, k);
    line_at(l, k);
    assert(text =~= joined(l).subrange(s, line_end(l, k)).take(p - s));
    assert(text == t.take(p - s));
    clusters(text);
    let n = graphemes(text).len() as int;
    if n == 0 { assert(gl(graphemes(text), 0) == 0); }
    gl_mono(text, n - 1, n); assert(gl(graphemes(text), n) == gl(graphemes(text), n - 1) + graphemes(text)[n - 1].len());
    if stop(l, p) {
        stop_here(l, p, k); clusters(t);
        let j = choose|j: int| 0 <= j <= g.len() && #[trigger] gl(g, j) == p - s;
        assert(graphemes(t.take(gl(g, j))) == g.take(j));
        assert(graphemes(text).last() == g[j - 1]);
        between_stops(l, k, j - 1); assert(gl(g, j) == gl(g, j - 1) + g[j - 1].len());
    }
}
/// across a paragraph break
pub proof fn break_text(l: Lines, k: int, n: int)
    requires 0 < k < l.len(), 0 < n, at_line(l, k) - 1 + n <= total(l),
    ensures ({ let t = joined(l).subrange(at_line(l, k) - 1, at_line(l, k) - 1 + n); graphemes(t).len() > 0 && graphemes(t)[0].len() == 1 }), stop(l, at_line(l, k)), stop(l, at_line(l, k) - 1),
{
    let t = joined(l).subrange(at_line(l, k) - 1, at_line(l, k) - 1 + n);
    line_at(l, k - 1); next_line(l, k - 1); end_stops(l, k); end_stops(l, k - 1);
    assert(t[0] == '\n'); clusters(t);
    if graphemes(t).len() == 0 { assert(gl(graphemes(t), 0) == 0); }
}
pub proof fn snap_to(l: Lines, k: int, j: int, p: int)
    requires 0 <= k < l.len(), 0 < j <= graphemes(l[k]).len(), at_line(l, k) + gl(graphemes(l[k]), j - 1) < p <= at_line(l, k) + gl(graphemes(l[k]), j), p < total(l), line_end(l, k) <= total(l),
    ensures snapped(l, p, at_line(l, k) + gl(graphemes(l[k]), j)),
{ between_stops(l, k, j - 1); }

// ---- words of the document
pub open spec fn word(l: Lines, k: int, i: int) -> bool { 0 <= k < l.len() && 0 <= i < words(l[k]).len() }
pub open spec fn w_start(l: Lines, k: int, i: int) -> int { at_line(l, k) + words(l[k])[i].0 }
pub open spec fn w_end(l: Lines, k: int, i: int) -> int { at_line(l, k) + words(l[k])[i].1 }
pub open spec fn no_end(l: Lines, a: int, b: int, k: int, i: int) -> bool { word(l, k, i) ==> !(a < w_end(l, k, i) < b) }
pub open spec fn no_start(l: Lines, a: int, b: int, k: int, i: int) -> bool { word(l, k, i) ==> !(a < w_start(l, k, i) < b) }
pub open spec fn no_starts(l: Lines, a: int, b: int) -> bool { forall|k: int, i: int| #[trigger] no_start(l, a, b, k, i) }
pub open spec fn is_end(l: Lines, r: int) -> bool { exists|k: int, i: int| word(l, k, i) && r == #[trigger] w_end(l, k, i) }
pub open spec fn is_start(l: Lines, r: int) -> bool { exists|k: int, i: int| word(l, k, i) && r == #[trigger] w_start(l, k, i) }
/// the nearest word end behind p, or the end of the document
pub open spec fn next_end(l: Lines, p: int, r: int) -> bool {
    if p >= total(l) { r == p } else {
        &&& p < r && (is_end(l, r) || r == total(l))
        &&& forall|k: int, i: int| #[trigger] no_end(l, p, r, k, i)
    }
}
/// the nearest word start before p, or the start of the document
pub open spec fn prev_start(l: Lines, p: int, r: int) -> bool {
    &&& (0 <= r < p && is_start(l, r)) || (r == 0 && no_starts(l, -1, p))
    &&& no_starts(l, r, p)
}
/// the offset in paragraph k a position stands for
pub open spec fn off(l: Lines, p: int, k: int) -> int { if p >= at_line(l, k) { p - at_line(l, k) } else { 0 } }
pub open spec fn has(t: Seq<char>, o: int, i: int) -> bool { 0 <= i < words(t).len() && words(t)[i].0 <= o < words(t)[i].1 }
pub open spec fn none_has(t: Seq<char>, o: int) -> bool { forall|i: int| !#[trigger] has(t, o, i) }
/// the word around p in paragraph k: the one that holds p, else the last one when it ends at p, else none
pub open spec fn around(l: Lines, p: int, k: int, a: int, b: int) -> bool {
    let o = off(l, p, k); let w = words(l[k]);
    ||| exists|i: int| #[trigger] has(l[k], o, i) && a == w_start(l, k, i) && b == w_end(l, k, i)
    ||| none_has(l[k], o) && w.len() > 0 && o == w.last().1 && a == w_start(l, k, w.len() - 1) && b == w_end(l, k, w.len() - 1)
    ||| none_has(l[k], o) && !(w.len() > 0 && o == w.last().1) && a == p && b == p
}
pub open spec fn around_at(l: Lines, p: int, a: int, b: int) -> bool { exists|k: int| #[trigger] is_para(l, p, k) && around(l, p, k, a, b) }
/// a word lies in its paragraph
pub proof fn word_in(l: Lines, k: int, i: int)
    requires word(l, k, i),
    ensures at_line(l, k) <= w_start(l, k, i) < w_end(l, k, i) <= line_end(l, k), line_end(l, k) <= total(l), 0 <= at_line(l, k),
{ wordy(l[k]); line_at(l, k); lines_up(l, 0, k); }
pub proof fn words_up(l: Lines, k: int, i: int, kk: int, ii: int)
    requires word(l, k, i), word(l, kk, ii), k < kk || (k == kk && i < ii),
    ensures w_end(l, k, i) <= w_start(l, kk, ii),
{ wordy(l[k]); word_in(l, k, i); word_in(l, kk, ii); if k < kk { lines_up(l, k, kk); } }
/// words that meet are one
pub proof fn words_apart(l: Lines, k: int, i: int, kk: int, ii: int)
    requires word(l, k, i), word(l, kk, ii),
    ensures (k == kk && i == ii) || w_end(l, k, i) <= w_start(l, kk, ii) || w_end(l, kk, ii) <= w_start(l, k, i),
{ if k < kk || (k == kk && i < ii) { words_up(l, k, i, kk, ii); } else if kk < k || ii < i { words_up(l, kk, ii, k, i); } }
/// a position inside a word, or at its start, is of its paragraph
pub proof fn in_word(l: Lines, p: int, k: int, i: int)
    requires word(l, k, i), w_start(l, k, i) <= p < w_end(l, k, i),
    ensures is_para(l, p, k), has(l[k], off(l, p, k), i),
{ word_in(l, k, i); para_of(l, p, k); }
/// a word has a letter
pub proof fn letter(l: Lines, k: int, i: int) -> (x: int)
    requires word(l, k, i),
    ensures w_start(l, k, i) <= x < w_end(l, k, i), 0 <= x < total(l), alnum(joined(l)[x]),
{
    hide(joined); wordy(l[k]); word_in(l, k, i); line_at(l, k); let s = at_line(l, k);
    let y = choose|y: int| words(l[k])[i].0 <= y < words(l[k])[i].1 && alnum(#[trigger] l[k][y]);
    assert(joined(l).subrange(s, s + l[k].len())[y] == joined(l)[s + y]);
    s + y
}
/// a letter is in a word of its paragraph
pub proof fn lettered(l: Lines, q: int, k: int) -> (i: int)
    requires is_para(l, q, k), 0 <= q < total(l), alnum(joined(l)[q]),
    ensures has(l[k], off(l, q, k), i), word(l, k, i), w_start(l, k, i) <= q < w_end(l, k, i),
{
    hide(joined); para_in(l, q, k); wordy(l[k]); line_at(l, k); let s = at_line(l, k);
    if q < s { line_at(l, k - 1); }
    assert(s <= q < s + l[k].len());
    assert(joined(l).subrange(s, s + l[k].len())[q - s] == joined(l)[q]);
    let y = q - s; assert(alnum(l[k][y]));
    choose|i: int| 0 <= i < words(l[k]).len() && (#[trigger] words(l[k])[i]).0 <= y < words(l[k])[i].1
}
pub open spec fn astride(l: Lines, p: int, k: int, i: int) -> bool { word(l, k, i) && w_start(l, k, i) <= p < w_end(l, k, i) }
pub open spec fn no_word(l: Lines, p: int) -> bool { forall|k: int, i: int| !#[trigger] astride(l, p, k, i) }
/// the end of the word around p is the nearest behind it; when there is none, no word lies over p
pub proof fn around_end(l: Lines, p: int, k: int, a: int, b: int)
    requires is_para(l, p, k), around(l, p, k, a, b), 0 <= p <= total(l),
    ensures b != p ==> next_end(l, p, b) && p < b <= total(l), b == p ==> no_word(l, p),
{
    hide(joined); para_in(l, p, k); wordy(l[k]); let o = off(l, p, k); let w = words(l[k]);
    if b != p {
        let i = if exists|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i) { choose|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i) } else { w.len() - 1 };
        assert(has(l[k], o, i)); word_in(l, k, i);
        if p < at_line(l, k) && i > 0 { words_up(l, k, i - 1, k, i); word_in(l, k, i - 1); }
        assert forall|kk: int, ii: int| #[trigger] no_end(l, p, b, kk, ii) by {
            if word(l, kk, ii) { words_apart(l, k, i, kk, ii); word_in(l, kk, ii); if kk < k { lines_up(l, kk, k - 1); } else if kk > k { words_up(l, k, i, kk, ii); } else if ii > i { words_up(l, k, i, kk, ii); } }
        }
    } else {
        assert forall|kk: int, ii: int| !#[trigger] astride(l, p, kk, ii) by {
            if astride(l, p, kk, ii) {
                in_word(l, p, kk, ii); para_one(l, p, k, kk); assert(has(l[k], o, ii));
                let i = choose|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i); word_in(l, k, i);
            }
        }
    }
}
/// forwards from a place without a word: the end of the word of the first letter
pub proof fn scan_found(l: Lines, p: int, q: int, k: int, a: int, b: int)
    requires no_word(l, p), 0 <= p <= q < total(l), alnum(joined(l)[q]), forall|x: int| p <= x < q ==> !alnum(#[trigger] joined(l)[x]), is_para(l, q, k), around(l, q, k, a, b),
    ensures next_end(l, p, b), b <= total(l),
{
    hide(joined); let i = lettered(l, q, k); assert(has(l[k], off(l, q, k), i));
    let j = choose|j: int| #[trigger] has(l[k], off(l, q, k), j) && b == w_end(l, k, j);
    words_apart(l, k, i, k, j); para_in(l, q, k); word_in(l, k, j);
    assert(w_start(l, k, j) <= q);
    assert forall|kk: int, ii: int| #[trigger] no_end(l, p, b, kk, ii) by {
        if word(l, kk, ii) && p < w_end(l, kk, ii) < b {
            let x = letter(l, kk, ii); words_apart(l, k, j, kk, ii); assert(!astride(l, p, kk, ii));
        }
    }
}
pub proof fn scan_none(l: Lines, p: int)
    requires no_word(l, p), 0 <= p < total(l), forall|x: int| p <= x < total(l) ==> !alnum(#[trigger] joined(l)[x]),
    ensures next_end(l, p, total(l)),
{
    hide(joined);
    assert forall|kk: int, ii: int| #[trigger] no_end(l, p, total(l), kk, ii) by {
        if word(l, kk, ii) && p < w_end(l, kk, ii) < total(l) { let x = letter(l, kk, ii); assert(!astride(l, p, kk, ii)); }
    }
}
/// backwards: the start of the word around q when there is none between q and p; else there is none at q either
pub proof fn around_start(l: Lines, q: int, k: int, a: int, b: int, p: int)
    requires is_para(l, q, k), around(l, q, k, a, b), 0 <= q <= p <= total(l), no_starts(l, q, p),
    ensures a < b && a < p ==> prev_start(l, p, a), !(a < b && a < p) ==> q == p || no_starts(l, q - 1, p),
{
    hide(joined); para_in(l, q, k); wordy(l[k]); let o = off(l, q, k); let w = words(l[k]);
    if a < b && a < p {
        let i = if exists|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i) && a == w_start(l, k, i) { choose|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i) && a == w_start(l, k, i) } else { w.len() - 1 };
        word_in(l, k, i); assert(no_start(l, q, p, k, i));
        assert forall|kk: int, ii: int| #[trigger] no_start(l, a, p, kk, ii) by {
            if word(l, kk, ii) && a < w_start(l, kk, ii) < p {
                assert(no_start(l, q, p, kk, ii)); words_apart(l, k, i, kk, ii); word_in(l, kk, ii);
                if kk > k { lines_up(l, k, kk); } else if kk < k { words_up(l, kk, ii, k, i); }
            }
        }
    } else if q < p {
        assert forall|kk: int, ii: int| #[trigger] no_start(l, q - 1, p, kk, ii) by {
            assert(no_start(l, q, p, kk, ii));
            if word(l, kk, ii) && w_start(l, kk, ii) == q {
                word_in(l, kk, ii); in_word(l, q, kk, ii); para_one(l, q, k, kk); assert(has(l[k], o, ii));
                let i = choose|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i) && a == w_start(l, k, i);
                words_apart(l, k, i, kk, ii); word_in(l, k, i);
            }
        }
    }
}
// ---- what a movement promises
pub open spec fn para_start(l: Lines, p: int, r: int) -> bool { exists|k: int| #[trigger] is_para(l, p, k) && r == at_line(l, k) }
pub open spec fn para_end(l: Lines, p: int, r: int) -> bool { exists|k: int| #[trigger] is_para(l, p, k) && r == line_end(l, k) }
pub open spec fn para_before(l: Lines, p: int, r: int) -> bool { exists|k: int| #[trigger] is_para(l, p, k) && r == if k > 0 { at_line(l, k - 1) } else { 0 } }
pub open spec fn moved(l: Lines, op: MoveOperation, p: int, n: nat, r: int) -> bool {
    match op {
        MoveOperation::NoMove => r == p,
        MoveOperation::Start => r == 0,
        MoveOperation::End => r == total(l),
        MoveOperation::NextCharacter | MoveOperation::Right => nexts(l, p, n, r),
        MoveOperation::PreviousCharacter | MoveOperation::Left => prevs(l, p, n, r),
        MoveOperation::StartOfBlock | MoveOperation::StartOfLine => para_start(l, p, r),
        MoveOperation::EndOfBlock | MoveOperation::EndOfLine => para_end(l, p, r),
        MoveOperation::NextBlock | MoveOperation::Down => para_end(l, p, r - 1),
        MoveOperation::PreviousBlock | MoveOperation::Up => para_before(l, p, r),
        MoveOperation::NextWord | MoveOperation::EndOfWord | MoveOperation::WordRight => next_end(l, p, r),
        MoveOperation::PreviousWord | MoveOperation::StartOfWord | MoveOperation::WordLeft => prev_start(l, p, r),
    }
}
pub proof fn nexts_more(l: Lines, p: int, n: nat, q: int, r: int)
    requires nexts(l, p, n, q), next_stop(l, q, r),
    ensures nexts(l, p, n + 1, r),
    decreases n,
{ if n == 0 { assert(nexts(l, r, 0, r)); } else { let x = choose|x: int| #[trigger] next_stop(l, p, x) && nexts(l, x, (n - 1) as nat, q); nexts_more(l, x, (n - 1) as nat, q, r); } }
pub proof fn nexts_stay(l: Lines, p: int, i: nat, q: int, n: nat)
    requires nexts(l, p, i, q), next_stop(l, q, q), i <= n,
    ensures nexts(l, p, n, q),
    decreases n,
{ if i < n { nexts_stay(l, p, i, q, (n - 1) as nat); nexts_more(l, p, (n - 1) as nat, q, q); } }
pub proof fn prevs_more(l: Lines, p: int, n: nat, q: int, r: int)
    requires prevs(l, p, n, q), prev_stop(l, q, r),
    ensures prevs(l, p, n + 1, r),
    decreases n,
{ if n == 0 { assert(prevs(l, r, 0, r)); } else { let x = choose|x: int| #[trigger] prev_stop(l, p, x) && prevs(l, x, (n - 1) as nat, q); prevs_more(l, x, (n - 1) as nat, q, r); } }
pub proof fn prevs_stay(l: Lines, p: int, i: nat, q: int, n: nat)
    requires prevs(l, p, i, q), prev_stop(l, q, q), i <= n,
    ensures prevs(l, p, n, q),
    decreases n,
{ if i < n { prevs_stay(l, p, i, q, (n - 1) as nat); prevs_more(l, p, (n - 1) as nat, q, q); } }
/// a step to the right and back ends where it began; so does a step to the left and back
pub proof fn there_and_back(l: Lines, p: int, q: int)
    requires stop(l, p), stop(l, q), 0 <= p, q <= total(l),
    ensures p < total(l) && next_stop(l, p, q) ==> prev_stop(l, q, p), 0 < p && 0 <= q && prev_stop(l, p, q) ==> next_stop(l, q, p) || p > total(l),
{ }

/// where a cursor asked for position t comes to rest, and what becomes of its anchor
pub open spec fn put(l: Lines, was: CursorData, t: int, mode: MoveMode, now: CursorData) -> bool {
    let p = if t <= total(l) { t } else { total(l) };
    &&& snapped(l, p, now.position as int)
    &&& now.position <= total(l)
    &&& now.anchor == if mode == MoveMode::MoveAnchor || was.anchor == p { now.position } else { was.anchor }
    &&& now.cell_selection_override is None
}
pub open spec fn selected(l: Lines, p: int, s: SelectionType, a: int, b: int) -> bool {
    match s {
        SelectionType::Document => a == 0 && b == total(l),
        SelectionType::BlockUnderCursor | SelectionType::LineUnderCursor => para_start(l, p, a) && para_end(l, p, b),
        SelectionType::WordUnderCursor => around_at(l, p, a, b),
    }
}
pub open spec fn lo(c: CursorData) -> int { if c.position <= c.anchor { c.position as int } else { c.anchor as int } }
pub open spec fn hi(c: CursorData) -> int { if c.position <= c.anchor { c.anchor as int } else { c.position as int } }
pub fn std_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub struct TableHandle { pub x: usize }
impl TableHandle { pub fn id(&self) -> usize { self.x } }
pub struct TableCellRef { pub table: TableHandle }
pub proof fn para_in2(l: Lines, p: int, k: int)
    requires is_para(l, p, k), 0 <= p,
    ensures 0 <= k < l.len(), line_end(l, k) <= total(l), 0 <= at_line(l, k), joined(l).subrange(at_line(l, k), line_end(l, k)) == l[k],
{ line_at(l, k); }

pub proof fn stop_next(l: Lines, p: int, r: int)
    requires next_stop(l, p, r), stop(l, p),
    ensures stop(l, r),
{ }
pub proof fn stop_prev(l: Lines, p: int, r: int)
    requires prev_stop(l, p, r), stop(l, p), l.len() > 0,
    ensures stop(l, r),
{ if p <= 0 { end_stops(l, 0); assert(at_line(l, 0) == 0); } }
pub proof fn para_some(l: Lines, p: int)
    ensures forall|k: int| #[trigger] is_para(l, p, k) ==> 0 <= k < l.len() && line_end(l, k) <= total(l) && 0 <= at_line(l, k),
{ assert forall|k: int| #[trigger] is_para(l, p, k) implies 0 <= k < l.len() && line_end(l, k) <= total(l) && 0 <= at_line(l, k) by { line_at(l, k); } }
pub proof fn around_end_at(l: Lines, p: int, b: int)
    requires exists|a: int| #[trigger] around_at(l, p, a, b), 0 <= p <= total(l),
    ensures b != p ==> next_end(l, p, b) && p < b <= total(l), b == p ==> no_word(l, p),
{ let a = choose|a: int| #[trigger] around_at(l, p, a, b); let k = choose|k: int| #[trigger] is_para(l, p, k) && around(l, p, k, a, b); around_end(l, p, k, a, b); }
pub proof fn scan_found_at(l: Lines, p: int, q: int, b: int)
    requires exists|a: int| #[trigger] around_at(l, q, a, b), no_word(l, p), 0 <= p <= q < total(l), alnum(joined(l)[q]), forall|x: int| p <= x < q ==> !alnum(#[trigger] joined(l)[x]),
    ensures next_end(l, p, b), b <= total(l),
{ let a = choose|a: int| #[trigger] around_at(l, q, a, b); let k = choose|k: int| #[trigger] is_para(l, q, k) && around(l, q, k, a, b); scan_found(l, p, q, k, a, b); }
pub proof fn around_start_at(l: Lines, q: int, a: int, b: int, p: int)
    requires around_at(l, q, a, b), 0 <= q <= p <= total(l), no_starts(l, q, p),
    ensures a < b && a < p ==> prev_start(l, p, a), !(a < b && a < p) ==> q == p || no_starts(l, q - 1, p),
{ let k = choose|k: int| #[trigger] is_para(l, q, k) && around(l, q, k, a, b); around_start(l, q, k, a, b, p); }
/// no word starts before p
pub proof fn start_none(l: Lines, p: int)
    requires no_starts(l, -1, p),
    ensures prev_start(l, p, 0),
{ assert forall|k: int, i: int| #[trigger] no_start(l, 0, p, k, i) by { assert(no_start(l, -1, p, k, i)); } }
/// the paragraph before that of p, by the last positions before it
pub proof fn para_above(l: Lines, p: int, bs: int, ps: int)
    requires para_start(l, p, bs), para_start(l, if bs >= 1 { bs - 1 } else { 0 }, ps), 0 <= p,
    ensures ps < bs ==> para_before(l, p, ps), ps >= bs ==> forall|q: int, r: int| q == (if bs >= 2 { bs - 2 } else { 0 }) && #[trigger] para_start(l, q, r) ==> para_before(l, p, r),
{
    let k = choose|k: int| #[trigger] is_para(l, p, k) && bs == at_line(l, k);
    let q = if bs >= 1 { bs - 1 } else { 0 }; let q2 = if bs >= 2 { bs - 2 } else { 0 };
    let j = choose|j: int| #[trigger] is_para(l, q, j) && ps == at_line(l, j);
    if k > 0 {
        next_line(l, k - 1); lines_up(l, 0, k - 1); lines_up(l, k - 1, k); line_at(l, k); line_at(l, k - 1); if k > 1 { next_line(l, k - 2); }
        let want = if l[k - 1].len() > 0 { k } else { k - 1 };
        assert(is_para(l, q, want)); para_one(l, q, j, want);
        if l[k - 1].len() > 0 {
            para_of(l, bs - 2, k - 1);
            assert forall|qq: int, r: int| qq == q2 && #[trigger] para_start(l, qq, r) implies para_before(l, p, r) by { let m = choose|m: int| #[trigger] is_para(l, q2, m) && r == at_line(l, m); para_one(l, q2, m, k - 1); }
        }
    } else {
        assert(bs == 0); para_start_0(l);
        assert forall|qq: int, r: int| qq == q2 && #[trigger] para_start(l, qq, r) implies para_before(l, p, r) by { let m = choose|m: int| #[trigger] is_para(l, q2, m) && r == at_line(l, m); para_one(l, 0, m, 0); }
        para_one(l, 0, j, 0);
    }
}
pub proof fn para_start_0(l: Lines)
    requires l.len() > 0,
    ensures is_para(l, 0, 0), at_line(l, 0) == 0,
{ line_at(l, 0); }

/// the word at j, or the next
pub proof fn word_step(l: Lines, p: int, k: int, j: int, b: int)
    requires is_para(l, p, k), word(l, k, j), at(l[k], b, words(l[k])[j].0), line_end(l, k) <= total(l), 0 <= at_line(l, k),
    ensures
        on_char(l[k], b), char_of(l[k], b) == words(l[k])[j].0, 0 <= words(l[k])[j].0 < words(l[k])[j].1 <= l[k].len(),
        l[k].subrange(words(l[k])[j].0, words(l[k])[j].1).len() == words(l[k])[j].1 - words(l[k])[j].0,
        has(l[k], off(l, p, k), j) <==> words(l[k])[j].0 <= off(l, p, k) < words(l[k])[j].1,
        has(l[k], off(l, p, k), j) ==> around_at(l, p, w_start(l, k, j), w_end(l, k, j)),
{ wordy(l[k]); at_one(l[k], b, words(l[k])[j].0); if has(l[k], off(l, p, k), j) { assert(around(l, p, k, w_start(l, k, j), w_end(l, k, j))); } }
/// no word holds the position
pub proof fn word_last(l: Lines, p: int, k: int)
    requires is_para(l, p, k), none_has(l[k], off(l, p, k)),
    ensures ({
        let (w, o) = (words(l[k]), off(l, p, k));
        &&& w.len() > 0 ==> w.last().0 < w.last().1 <= l[k].len()
        &&& w.len() > 0 && o == w.last().1 ==> around_at(l, p, at_line(l, k) + w.last().0, at_line(l, k) + w.last().1)
        &&& !(w.len() > 0 && o == w.last().1) ==> around_at(l, p, p, p)
    }),
{
    wordy(l[k]); let (w, o) = (words(l[k]), off(l, p, k));
    if w.len() > 0 { let m = w.len() - 1; assert(w[m].0 < w[m].1); if o == w[m].1 { assert(around(l, p, k, w_start(l, k, m), w_end(l, k, m))); } }
    if !(w.len() > 0 && o == w.last().1) { assert(around(l, p, k, p, p)); }
}
pub proof fn word_none(l: Lines, p: int, k: int)
    requires is_para(l, p, k), 0 <= k < l.len(), l[k].len() == 0,
    ensures around_at(l, p, p, p),
{ wordy(l[k]); if words(l[k]).len() > 0 { assert(words(l[k])[0].1 <= 0); } assert(around(l, p, k, p, p)); }

pub proof fn prev_first(l: Lines, p: int, a: int)
    requires exists|b: int| #[trigger] around_at(l, p, a, b), 0 <= p <= total(l),
    ensures a < p ==> prev_start(l, p, a), p == 0 ==> prev_start(l, p, 0), no_starts(l, p - 1, p),
{
    let b = choose|b: int| #[trigger] around_at(l, p, a, b); let k = choose|k: int| #[trigger] is_para(l, p, k) && around(l, p, k, a, b);
    assert(no_starts(l, p, p)); assert(no_starts(l, p - 1, p)); around_start(l, p, k, a, b, p);
    if a < p && a >= b { wordy(l[k]); let o = off(l, p, k); if exists|i: int| #[trigger] has(l[k], o, i) && b == w_end(l, k, i) && a == w_start(l, k, i) { } else { let m = words(l[k]).len() - 1; assert(words(l[k])[m].0 < words(l[k])[m].1); } }
    if p == 0 { start_none(l, p); }
}

/// a cursor that may rest at t is left there
pub proof fn at_rest(l: Lines, t: int, r: int)
    requires snapped(l, t, r), stop(l, t),
    ensures r == t,
{ if t < total(l) && r > t { assert(!stop(l, t)); } }

#[verifier::external_body] // TRUSTED
pub struct Error { x: u8 }
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub struct Doc { pub lines: Ghost<Lines> }
impl Doc {
    pub open spec fn l(&self) -> Lines { self.lines@ }
    /// a document without tables
    pub open spec fn ok(&self) -> bool { self.l().len() > 0 && total(self.l()) < 0x7fff_ffff }
    #[verifier::external_body] // TRUSTED here: the counts (bounded-checked with C05)
    pub fn stats(&self) -> (r: Result<DocumentStatsDto, Error>)
        requires self.ok(),
        ensures r is Ok, r->Ok_0.block_count == self.l().len(), r->Ok_0.character_count == total(self.l()) - (self.l().len() - 1), r->Ok_0.character_count >= 0,
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED here: the paragraph at a position (C05)
    pub fn block_at(&self, d: &GetBlockAtPositionDto) -> (r: Result<BlockInfoDto, Error>)
        requires self.ok(), d.position >= 0,
        ensures
            r is Ok, is_para(self.l(), d.position as int, r->Ok_0.block_number as int),
            r->Ok_0.block_start == at_line(self.l(), r->Ok_0.block_number as int), r->Ok_0.block_length == self.l()[r->Ok_0.block_number as int].len(),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED here: the text at a position (C05)
    pub fn text_at(&self, d: &GetTextAtPositionDto) -> (r: Result<TextAtPositionDto, Error>)
        requires self.ok(), 0 <= d.position <= total(self.l()), d.length >= 0,
        ensures r is Ok, r->Ok_0.text@ == joined(self.l()).subrange(d.position as int, if d.position + d.length <= total(self.l()) { d.position + d.length } else { total(self.l()) }),
    { unimplemented!() }
}
pub struct CursorCell { pub c: CursorData }
impl CursorCell {
    pub fn read(&self) -> (r: &CursorData) ensures *r == self.c { &self.c }
    pub fn lock(&mut self) -> (r: &mut CursorData) ensures *r == old(self).c, *final(r) == final(self).c { &mut self.c }
}
/// TRUSTED: a cursor with its own data, behind its lock, on a document, behind its lock
pub struct TextCursor { pub data: CursorCell, pub doc: Doc }

//@ fn crates/public_api/src/convert.rs to_i64
requires v < 0x7fff_ffff_ffff_ffff,
ensures r == v,
//@ ret r
//@ end
//@ fn crates/public_api/src/convert.rs to_usize
requires v >= 0,
ensures r == v,
//@ ret r
//@ rwstmt assert!($x); =>
//@ end
//@ fn crates/public_api/src/cursor.rs max_cursor_position
requires stats.block_count >= 1, stats.character_count >= 0, stats.character_count + stats.block_count <= 0x7fff_ffff,
ensures r == stats.character_count + stats.block_count - 1,
//@ ret r
//@ end
impl TextCursor {
    pub open spec fn l(&self) -> Lines { self.doc.l() }
    #[verifier::external_body] // TRUSTED: no position of a document without tables is in a cell
    pub fn table_cell_at(&self, position: usize) -> (r: Option<TableCellRef>) requires self.doc.ok(), ensures r is None { unimplemented!() }
    #[verifier::external_body] // not reached without tables
    pub fn table_boundary_position(&self, table_id: usize, before: bool) -> Option<usize> { unimplemented!() }
//@ fn crates/public_api/src/cursor.rs TextCursor::position
ensures r == self.data.c.position,
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::next_grapheme_boundary
requires self.doc.ok(),
ensures pos >= total(self.l()) ==> r == pos, pos < total(self.l()) ==> pos < r <= total(self.l()), stop(self.l(), pos as int) ==> next_stop(self.l(), pos as int, r as int),
//@ ret r
//@ rw (pos + 1).min(end) => std_min(pos + 1, end)
//@ rw (pos + $n).min(end) => std_min(pos + $n, end)
//@ top
//raw
hide(joined); hide(stop); hide(is_para);
let ghost l = self.l(); let ghost p = pos as int;
//@ behind let block_start = $x;
let k = block_info.block_number as int;
para_in(l, p, k); end_stops(l, k); if k + 1 < l.len() { next_line(l, k); line_at(l, k); end_stops(l, k + 1); } else { line_at(l, k); }
if p == at_line(l, k) - 1 && l[k].len() > 0 { break_text(l, k, l[k].len() as int); }
//@ ahead match $x { $y }
let k = block_info.block_number as int;
if at_line(l, k) <= p { next_in(l, k, p, text@); } else { assert(text@ =~= joined(l).subrange(p, p + l[k].len())); }
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::prev_grapheme_boundary
requires self.doc.ok(), pos <= total(self.l()),
ensures pos == 0 ==> r == 0, pos > 0 ==> r < pos, stop(self.l(), pos as int) ==> prev_stop(self.l(), pos as int, r as int),
//@ ret r
//@ top
//raw
hide(joined); hide(stop); hide(is_para);
let ghost l = self.l(); let ghost p = pos as int;
//@ behind let block_start = $x;
let k = block_info.block_number as int;
para_in(l, p - 1, k); end_stops(l, k); if k > 0 { end_stops(l, k - 1); }
//@ ahead match $x { $y }
let k = block_info.block_number as int;
prev_in(l, k, p, text@);
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::forward_grapheme_boundary_at_or_after
requires self.doc.ok(),
ensures snapped(self.l(), pos as int, r as int),
//@ ret r
//@ top
//raw
hide(joined); hide(stop); hide(is_para);
let ghost l = self.l(); let ghost p = pos as int;
//@ behind let block_start = $x;
let k = block_info.block_number as int;
para_in(l, p, k); end_stops(l, k); if k > 0 { end_stops(l, k - 1); }
//@ loop 0 before
//raw
let ghost k = block_info.block_number as int; let ghost gs = graphemes(l[k]);
proof { assert(text@ =~= l[k]); clusters(l[k]); if gs.len() == 0 { assert(gl(gs, 0) == 0); } }
//@ loop 0 it
invariant
    it.seq().len() == gs.len(), std_strings(it.seq()) == gs, gs == graphemes(l[k]), acc == gl(gs, it.index@ as int), it.index@ > 0 ==> gl(gs, it.index@ - 1) < offset_in_block,
    0 <= k < l.len(), l == self.l(), p == pos, block_start == at_line(l, k), p == block_start + offset_in_block, 0 < offset_in_block < l[k].len(), p < total(l), line_end(l, k) <= total(l), total(l) < 0x7fff_ffff,
//@ loop 0 top
//raw
let ghost j = it.index@ as int;
proof { assert(std_strings(it.seq())[j] == it.seq()[j]@); gl_mono(l[k], j, j + 1); assert(gl(gs, j + 1) == gl(gs, j) + gs[j].len()); if acc >= offset_in_block { snap_to(l, k, j, p); } }
//@ loop 0 after
snap_to(l, k, gs.len() as int, p);
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::find_word_boundaries
requires self.doc.ok(), pos <= total(self.l()),
ensures around_at(self.l(), pos as int, r.0 as int, r.1 as int),
//@ ret r
//@ top
//raw
hide(joined); hide(is_para); hide(around); hide(at_line); hide(blen); hide(char_of); hide(around_at);
let ghost l = self.l(); let ghost p = pos as int;
proof { para_some(l, p); }
//@ behind let block_length = $x;
let k = block_info.block_number as int; para_in2(l, p, k);
if l[k].len() == 0 { word_none(l, p, k); }
//@ loop 0 before
//raw
let ghost k = block_info.block_number as int; let ghost ws = words(l[k]); let ghost o = off(l, p, k);
proof { assert(text@ =~= l[k]); wordy(l[k]); }
//@ loop 0 it
invariant
    it.seq().len() == ws.len(), ws == words(l[k]), text@ == l[k], is_para(l, p, k), o == off(l, p, k), o == cursor_offset, block_start == at_line(l, k), l == self.l(), p == pos,
    0 <= k < l.len(), line_end(l, k) <= total(l), total(l) < 0x7fff_ffff,
    forall|i: int| 0 <= i < ws.len() ==> at(l[k], (#[trigger] it.seq()[i]).0 as int, ws[i].0) && it.seq()[i].1@ == l[k].subrange(ws[i].0, ws[i].1),
    forall|i: int| 0 <= i < it.index@ ==> !#[trigger] has(l[k], o, i),
    it.index@ == 0 ==> last_char_start == 0 && last_char_end == 0,
    it.index@ > 0 ==> last_char_start == ws[it.index@ - 1].0 && last_char_end == ws[it.index@ - 1].1,
//@ loop 0 top
//raw
let ghost j = it.index@ as int;
proof { assert(at(l[k], it.seq()[j].0 as int, ws[j].0)); word_step(l, p, k, j, it.seq()[j].0 as int); }
//@ loop 0 after
word_last(l, p, k);
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::resolve_move
requires self.doc.ok(), self.data.c.position <= total(self.l()), stop(self.l(), self.data.c.position as int),
ensures moved(self.l(), op, self.data.c.position as int, n as nat, r as int),
decreases (if op is Up || op is Down { 1int } else { 0int }),
//@ ret r
//@ rw for (i, ch) in r.text.chars().enumerate() { $b } => { let cs = std_chars(r.text.as_str()); for i in 0..cs.len() { let ch = cs[i]; $b } }
//@ rw ch.is_alphanumeric() => std_alnum(ch)
//@ rw ch.is_alphabetic() => std_alpha(ch)
//@ rw ch.is_numeric() => std_numeric(ch)
//@ rw |p: usize| { $a; $b } => closure« -> (r: usize) requires p <= total(self.l()) ensures para_start(self.l(), p as int, r as int)»(|p: usize| { $a; $b })
//@ rw break $x => { found = $x; break }
//@ rw loop { $b } => { let mut found: usize = 0; loop { $b } found }
//@ top
//raw
hide(joined); hide(stop); hide(is_para); hide(around); hide(next_end); hide(prev_start); hide(next_stop); hide(prev_stop); hide(nexts); hide(prevs);
let ghost l = self.l(); let ghost p = self.data.c.position as int;
proof { assert(nexts(l, p, 0, p)) by { reveal(nexts); } assert(prevs(l, p, 0, p)) by { reveal(prevs); } para_some(l, p); }
//@ loop 0 it
invariant_except_break nexts(l, p, it.index@ as nat, cur as int),
invariant self.doc.ok(), l == self.l(), p <= cur <= total(l), stop(l, cur as int), it.index@ <= n,
ensures nexts(l, p, n as nat, cur as int),
//@ behind let next = $x;
stop_next(l, cur as int, next as int);
if next == cur { nexts_stay(l, p, it.index@ as nat, cur as int, n as nat); } else { nexts_more(l, p, it.index@ as nat, cur as int, next as int); }
//@ loop 1 it
invariant_except_break prevs(l, p, it.index@ as nat, cur as int),
invariant self.doc.ok(), l == self.l(), cur <= p, p <= total(l), stop(l, cur as int), it.index@ <= n,
ensures prevs(l, p, n as nat, cur as int),
//@ behind let prev = $x;
stop_prev(l, cur as int, prev as int);
if prev == cur { prevs_stay(l, p, it.index@ as nat, cur as int, n as nat); } else { prevs_more(l, p, it.index@ as nat, cur as int, prev as int); }
//@ behind let (_, end) = $x;
around_end_at(l, p, end as int);
//@ behind let scan_len = $x;
if scan_len == 0 { assert(next_end(l, p, p)) by { reveal(next_end); } }
//@ loop 2 it
invariant
    op is NextWord || op is EndOfWord || op is WordRight, p == self.data.c.position, self.doc.ok(), l == self.l(), p == pos, pos + scan_len == total(l), cs@ == joined(l).subrange(p, total(l)), cs@.len() == scan_len, no_word(l, p), 0 <= p < total(l),
    forall|x: int| p <= x < p + i ==> !alnum(#[trigger] joined(l)[x]),
//@ loop 2 top
assert(joined(l)[p + i] == cs@[i as int]);
//@ loop 2 after
scan_none(l, p);
//@ behind let (_, word_end) = $x;
scan_found_at(l, p, word_pos as int, word_end as int);
//@ loop 3
invariant_except_break self.doc.ok(), l == self.l(), p == pos, p <= total(l), 0 <= search < p, no_starts(l, search as int, p),
ensures prev_start(l, p, found as int),
decreases search,
//@ behind let (ws, we) = $x;
around_start_at(l, search as int, ws as int, we as int, p);
if search == 0 && !(ws < we && ws < p) { assert(prev_start(l, p, 0)) by { reveal(prev_start); start_none(l, p); } }
//@ behind let prev_start = $x;
para_above(l, p, block_start as int, prev_start as int);
//@ behind let (start, _) = $x;
prev_first(l, p, start as int);
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::snap_position_to_grapheme_boundary
//@ recv &mut self
requires old(self).doc.ok(),
ensures
    final(self).doc == old(self).doc, snapped(old(self).l(), old(self).data.c.position as int, final(self).data.c.position as int),
    final(self).data.c.anchor == if old(self).data.c.anchor == old(self).data.c.position { final(self).data.c.position } else { old(self).data.c.anchor },
    final(self).data.c.cell_selection_override == old(self).data.c.cell_selection_override,
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::set_position
//@ recv &mut self
requires old(self).doc.ok(),
ensures final(self).doc == old(self).doc, put(old(self).l(), old(self).data.c, position as int, mode, final(self).data.c),
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::move_position
//@ recv &mut self
requires old(self).doc.ok(), old(self).data.c.position <= total(old(self).l()), stop(old(self).l(), old(self).data.c.position as int),
ensures
    final(self).doc == old(self).doc,
    exists|t: int| #[trigger] moved(old(self).l(), operation, old(self).data.c.position as int, n as nat, t) && put(old(self).l(), old(self).data.c, t, mode, final(self).data.c),
    r == (final(self).data.c.position != old(self).data.c.position),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::select
//@ recv &mut self
requires old(self).doc.ok(), old(self).data.c.position <= total(old(self).l()),
ensures
    final(self).doc == old(self).doc, selected(old(self).l(), old(self).data.c.position as int, selection, final(self).data.c.anchor as int, final(self).data.c.position as int),
    final(self).data.c.cell_selection_override is None,
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::anchor
ensures r == self.data.c.anchor,
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::has_selection
ensures r == (self.data.c.position != self.data.c.anchor),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::selection_start
ensures r == lo(self.data.c),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::selection_end
ensures r == hi(self.data.c),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::read_cursor
ensures r.0 == self.data.c.position, r.1 == self.data.c.anchor,
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::selected_text
requires self.doc.ok(), hi(self.data.c) <= total(self.l()),
ensures r is Ok, r->Ok_0@ == joined(self.l()).subrange(lo(self.data.c), hi(self.data.c)),
//@ ret r
//@ rw String::new() => std_empty()
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::clear_selection
//@ recv &mut self
ensures final(self).doc == old(self).doc, final(self).data.c.position == old(self).data.c.position, final(self).data.c.anchor == old(self).data.c.position,
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::at_block_start
requires self.doc.ok(), self.data.c.position <= total(self.l()),
ensures exists|k: int| #[trigger] is_para(self.l(), self.data.c.position as int, k) && r == (self.data.c.position == at_line(self.l(), k)),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::at_block_end
requires self.doc.ok(), self.data.c.position <= total(self.l()),
ensures exists|k: int| #[trigger] is_para(self.l(), self.data.c.position as int, k) && r == (self.data.c.position == line_end(self.l(), k)),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::at_start
ensures r == (self.data.c.position == 0),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::at_end
requires self.doc.ok(),
ensures r == (self.data.c.position >= total(self.l())),
//@ ret r
//@ rw $x.unwrap_or($d) => (match $x { Ok(v) => v, Err(_) => $d })
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::block_number
requires self.doc.ok(), self.data.c.position <= total(self.l()),
ensures is_para(self.l(), self.data.c.position as int, r as int),
//@ ret r
//@ end
//@ fn crates/public_api/src/cursor.rs TextCursor::position_in_block
requires self.doc.ok(), self.data.c.position <= total(self.l()),
ensures exists|k: int| #[trigger] is_para(self.l(), self.data.c.position as int, k) && r == off(self.l(), self.data.c.position as int, k),
//@ ret r
//@ end
}
}
fn main() {}
