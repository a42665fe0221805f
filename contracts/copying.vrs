use vstd::prelude::*;
use vstd::string::*;
verus! {
//@ use frag_ops.vrs
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
/// s between a and b, as far as it reaches
pub open spec fn between<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.subrange(least(a, s.len() as int), least(b, s.len() as int)) }
impl FragmentElement {
//@ fn crates/common/src/parser_tools/fragment_schema.rs FragmentElement::from_segment
ensures r.content == seg.content, el_format(r) == seg_format(*seg),
//@ ret r
//@ end
}
pub proof fn seg_take(s: Seq<InlineSegment>, n: int)
    requires 0 <= n < s.len(),
    ensures expand(seg_pieces(s.take(n + 1))) == expand(seg_pieces(s.take(n))) + spread(seg_piece(s[n]).0, seg_piece(s[n]).1),
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); seg_push(s.take(n), s[n]); }
pub proof fn seg_prefix(s: Seq<InlineSegment>, n: int)
    requires 0 <= n <= s.len(),
    ensures expand(seg_pieces(s.take(n))).len() <= expand(seg_pieces(s)).len(), forall|k: int| 0 <= k < expand(seg_pieces(s.take(n))).len() ==> expand(seg_pieces(s.take(n)))[k] == #[trigger] expand(seg_pieces(s))[k],
    decreases s.len() - n,
{ if n < s.len() { seg_take(s, n); seg_prefix(s, n + 1); } else { assert(s.take(n) =~= s); } }
/// what one element adds to the extracted range
pub proof fn take_part(before: Seq<(char, CharacterFormat)>, t: Seq<char>, f: CharacterFormat, lo: int, hi: int)
    requires 0 <= lo <= hi,
    ensures
        before.len() + t.len() <= lo ==> between(before + spread(t, f), lo, hi) =~= between(before, lo, hi),
        before.len() >= hi ==> between(before + spread(t, f), lo, hi) =~= between(before, lo, hi),
        before.len() + t.len() > lo && before.len() < hi ==> ({
            let a = if lo > before.len() { lo - before.len() } else { 0 };
            let b = if hi < before.len() + t.len() { hi - before.len() } else { t.len() as int };
            0 <= a <= b <= t.len() && between(before + spread(t, f), lo, hi) =~= between(before, lo, hi) + spread(t.subrange(a, b), f)
        }),
{ }
pub proof fn chars_add<F>(a: Seq<(char, F)>, t: Seq<char>, f: F) ensures chars_of(a + spread(t, f)) == chars_of(a) + t { assert(chars_of(a + spread(t, f)) =~= chars_of(a) + t); }
//@ fn crates/document_inspection/src/use_cases/extract_fragment_uc.rs extract_elements_in_range
requires texts(elements@), local_start <= local_end, expand(seg_pieces(elements@)).len() <= u32::MAX,
ensures
    expand(el_pieces(r.0@)) == between(expand(seg_pieces(elements@)), local_start as int, local_end as int), el_texts(r.0@),
    r.1@ == chars_of(expand(el_pieces(r.0@))),
//@ ret r
//@ rw s.chars().count() => std_char_count(s)
//@ rw s.chars().collect() => std_chars(s)
//@ rw chars[$a..$b].iter().collect() => std_collect(&chars, $a, $b)
//@ rw slice.is_empty() => std_is_empty(&slice)
//@ rw slice.clone() => std_clone_string(&slice)
//@ rw $a.saturating_sub($b) => sat_sub($a, $b)
//@ rw result_text.push_str(&slice) => std_push_str(&mut result_text, &slice)
//@ rw result_text.push($c) => std_push(&mut result_text, $c)
//@ top
//raw
let ghost all = expand(seg_pieces(elements@)); let ghost mut m: int = 0;
proof { reveal_strlit(""); assert(elements@.take(0) =~= Seq::<InlineSegment>::empty()); }
//@ loop 0 before
assert(seg_pieces(elements@.take(0)) =~= Seq::empty());
assert(chars_of(expand(el_pieces(result_elements@))) =~= result_text@);
//@ loop 0 it
invariant_except_break m == it.index@,
invariant
    it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i], texts(elements@), local_start <= local_end, all == expand(seg_pieces(elements@)), all.len() <= u32::MAX,
    0 <= m <= elements@.len(), char_cursor == expand(seg_pieces(elements@.take(m))).len(), el_texts(result_elements@),
    expand(el_pieces(result_elements@)) == between(expand(seg_pieces(elements@.take(m))), local_start as int, local_end as int),
    result_text@ == chars_of(expand(el_pieces(result_elements@))),
ensures m == elements@.len() || char_cursor >= local_end,
//@ loop 0 top
//raw
let ghost r0 = result_elements@; let ghost b0 = expand(seg_pieces(elements@.take(m)));
proof {
    seg_take(elements@, m); seg_prefix(elements@, m + 1); take_part(b0, seg_piece(*elem).0, seg_piece(*elem).1, local_start as int, local_end as int);
}
//@ loop 0 bottom
let t = seg_piece(*elem).0; let f = seg_piece(*elem).1; let (lo, hi) = (local_start as int, local_end as int);
let a = if lo > b0.len() { lo - b0.len() } else { 0 };
let b = if hi < b0.len() + t.len() { hi - b0.len() } else { t.len() as int };
if b0.len() + t.len() > lo {
    chars_add(expand(el_pieces(r0)), t.subrange(a, b), f);
    if a < b { el_push(r0, result_elements@.last()); assert(el_piece(result_elements@.last()) == (t.subrange(a, b), f)); assert(result_elements@ =~= r0.push(result_elements@.last())); }
    else { assert(spread(t.subrange(a, b), f) =~= Seq::empty()); assert(result_elements@ == r0); }
}
m = m + 1;
//@ loop 0 after
seg_prefix(elements@, m);
assert(elements@.take(elements@.len() as int) =~= elements@);
assert(between(expand(seg_pieces(elements@.take(m))), local_start as int, local_end as int) =~= between(all, local_start as int, local_end as int));
//@ end

/// the formatting of a whole paragraph
pub open spec fn takes_format(f: FragmentBlock, b: Block) -> bool {
    f.heading_level == b.fmt_heading_level && f.alignment == b.fmt_alignment && f.indent == b.fmt_indent && f.text_indent == b.fmt_text_indent && f.marker == b.fmt_marker
        && f.top_margin == b.fmt_top_margin && f.bottom_margin == b.fmt_bottom_margin && f.left_margin == b.fmt_left_margin && f.right_margin == b.fmt_right_margin
        && f.tab_positions@ == b.fmt_tab_positions@ && f.line_height == b.fmt_line_height && f.non_breakable_lines == b.fmt_non_breakable_lines && f.direction == b.fmt_direction
        && f.background_color == b.fmt_background_color && f.is_code_block == b.fmt_is_code_block && f.code_language == b.fmt_code_language
}
pub open spec fn no_format(f: FragmentBlock) -> bool {
    f.heading_level is None && f.alignment is None && f.indent is None && f.text_indent is None && f.marker is None && f.top_margin is None && f.bottom_margin is None
        && f.left_margin is None && f.right_margin is None && f.tab_positions@.len() == 0 && f.line_height is None && f.non_breakable_lines is None && f.direction is None
        && f.background_color is None && f.is_code_block is None && f.code_language is None
}
//@ fn crates/document_inspection/src/use_cases/extract_fragment_uc.rs block_to_fragment_block
ensures r.plain_text == plain_text, r.elements == elements, r.list == list, if is_full_block { takes_format(r, *block) } else { no_format(r) },
//@ ret r
//@ rw vec![] => Vec::new()
//@ end
impl FragmentList {
//@ fn crates/common/src/parser_tools/fragment_schema.rs FragmentList::from_entity
ensures r.style == list.style, r.indent == list.indent, r.prefix@ == list.prefix@, r.suffix@ == list.suffix@,
//@ ret r
//@ end
}
//@ use lines.vrs
/// a selection that ends at the start of a paragraph does not copy the break before it
pub open spec fn is_line_start(l: Lines, p: int) -> bool { exists|k: int| 0 < k < l.len() && at_line(l, k) == p }
pub open spec fn copied_end(l: Lines, end: int) -> int { least(if is_line_start(l, end) { end - 1 } else { end }, joined(l).len() as int) }
pub proof fn joined_push(q: Lines, x: Seq<char>)
    ensures joined(q.push(x)) == if q.len() == 0 { x } else { joined(q) + seq!['\n'] + x },
{
    before_same(q, q.push(x), q.len() as int);
    if q.len() == 0 { assert(joined(q.push(x)) =~= x); }
    else { before_same(q, q.push(x), q.len() - 1); assert(before(q.push(x), q.len() as int) == before(q, q.len() - 1) + q.last() + seq!['\n']); assert(joined(q.push(x)) =~= joined(q) + seq!['\n'] + x); }
}
pub proof fn before_same(a: Lines, b: Lines, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i],
    ensures before(a, k) == before(b, k),
    decreases k,
{ if k > 0 { before_same(a, b, k - 1); } }
//@ use store_doc.vrs
#[verifier::external_body] // TRUSTED
pub struct Error { x: u8 }
pub struct Uow { pub lists: Ghost<Map<u64, Option<List>>> }
impl Uow {
    #[verifier::external_body] // TRUSTED: the list table
    pub fn get_list(&self, id: &u64) -> (r: Result<Option<List>, Error>) ensures r is Ok ==> r->Ok_0 == self.lists@[*id] { unimplemented!() }
}
pub fn std_last_id(b: &Vec<Block>) -> (r: u64) ensures b@.len() > 0 ==> r == b@.last().id { if b.len() > 0 { b[b.len() - 1].id } else { 0 } }
pub open spec fn same_list(f: Option<FragmentList>, l: Option<List>) -> bool {
    match (f, l) { (Some(f), Some(l)) => f.style == l.style && f.indent == l.indent && f.prefix@ == l.prefix@ && f.suffix@ == l.suffix@, (None, None) => true, _ => false }
}
pub fn std_map_list(l: &Option<List>) -> (r: Option<FragmentList>) ensures same_list(r, *l) { match l { Some(x) => Some(FragmentList::from_entity(x)), None => None } }
#[verifier::external_body] // TRUSTED: joining lines with "\n"
pub fn std_join(v: &Vec<String>) -> (r: String) ensures r@ == joined(strings(v@)) { v.join("\n") }
pub open spec fn strings(v: Seq<String>) -> Lines { v.map_values(|x: String| x@) }
pub uninterp spec fn json(d: FragmentData) -> Seq<char>;
#[verifier::external_body] // TRUSTED: serde_json writes the fragment
pub fn to_json(d: &FragmentData) -> (r: Result<String, Error>) ensures r is Ok ==> r->Ok_0@ == json(*d) { unimplemented!() }

/// paragraph k as the selection [lo, hi) copies it
pub open spec fn copy_of(f: FragmentBlock, s: Store, b: Seq<Block>, k: int, lo: int, hi: int, lists: Map<u64, Option<List>>) -> bool {
    let t = text_of(s, b[k]); let p = b[k].document_position as int;
    let full = lo <= p && hi >= p + t.len() && (hi > p + t.len() || k == b.len() - 1);
    &&& expand(el_pieces(f.elements@)) == between(written(t, runs_at(s, b[k])), if lo > p { lo - p } else { 0 }, if hi > p { hi - p } else { 0 })
    &&& el_texts(f.elements@) && f.plain_text@ == chars_of(expand(el_pieces(f.elements@)))
    &&& if full { takes_format(f, b[k]) && (if b[k].list is Some { same_list(f.list, lists[b[k].list->0]) } else { f.list is None }) } else { no_format(f) && f.list is None }
}
pub open spec fn meets(s: Store, b: Seq<Block>, k: int, lo: int, hi: int) -> bool { !(b[k].document_position + text_of(s, b[k]).len() < lo || b[k].document_position >= hi) }
/// a copied paragraph
pub open spec fn copied(f: FragmentBlock, s: Store, b: Seq<Block>, k: int, lo: int, hi: int, lists: Map<u64, Option<List>>) -> bool { meets(s, b, k, lo, hi) && copy_of(f, s, b, k, lo, hi, lists) }
/// blocks [first, first + n) are copied, the others do not meet the selection
pub open spec fn copies(f: Seq<FragmentBlock>, s: Store, b: Seq<Block>, first: int, upto: int, lo: int, hi: int, lists: Map<u64, Option<List>>) -> bool {
    &&& 0 <= first && first + f.len() <= upto <= b.len()
    &&& forall|q: int| 0 <= q < f.len() ==> copied(#[trigger] f[q], s, b, first + q, lo, hi, lists)
    &&& forall|k: int| 0 <= k < upto && !(first <= k < first + f.len()) ==> !#[trigger] meets(s, b, k, lo, hi)
}
/// the text copied from the first k lines
pub open spec fn progress(l: Lines, k: int, lo: int, hi: int, q: Lines) -> bool {
    let x = least(copied_end(l, hi), at_line(l, k) - 1);
    if k > 0 && at_line(l, k) - 1 >= lo { q.len() > 0 && lo <= x && joined(q) == joined(l).subrange(lo, x) } else { q.len() == 0 }
}
pub proof fn end_in(l: Lines, k: int, hi: int)
    requires 0 <= k < l.len(), at_line(l, k) < hi,
    ensures
        hi <= at_line(l, k) + l[k].len() ==> copied_end(l, hi) == hi,
        hi > at_line(l, k) + l[k].len() ==> copied_end(l, hi) >= at_line(l, k) + l[k].len(),
{
    line_at(l, k); next_line(l, k);
    if hi <= at_line(l, k) + l[k].len() && is_line_start(l, hi) {
        let j = choose|j: int| 0 < j < l.len() && at_line(l, j) == hi;
        if j <= k { lines_up(l, j, k); } else { lines_up(l, k, j); }
    }
}
pub proof fn advance(l: Lines, k: int, lo: int, hi: int, q0: Lines, q1: Lines)
    requires 0 <= k < l.len(), 0 <= lo < hi, lo <= joined(l).len(), progress(l, k, lo, hi, q0),
        ({ let p = at_line(l, k); let e = p + l[k].len();
           if e < lo || p >= hi { q1 == q0 } else { q1 == q0.push(l[k].subrange(if lo > p { lo - p } else { 0 }, if hi < e { hi - p } else { l[k].len() as int })) } }),
    ensures progress(l, k + 1, lo, hi, q1),
{
    let (p, t, w) = (at_line(l, k), l[k], joined(l)); let e = p + t.len();
    line_at(l, k); next_line(l, k);
    if k > 0 { line_at(l, k - 1); next_line(l, k - 1); }
    if e < lo { }
    else if p >= hi { assert(k > 0); if p == hi { assert(is_line_start(l, hi)); } }
    else {
        end_in(l, k, hi);
        let (a, b) = (if lo > p { lo - p } else { 0 }, if hi < e { hi - p } else { t.len() as int });
        joined_push(q0, t.subrange(a, b));
        assert(t == w.subrange(p, e));
        assert(t.subrange(a, b) =~= w.subrange(p + a, p + b));
        if k > 0 && p - 1 >= lo {
            if k > 1 || true { end_in(l, k - 1, hi); }
            assert(w.subrange(lo, p - 1) + seq!['\n'] + w.subrange(p, p + b) =~= w.subrange(lo, p + b));
        }
    }
}
pub type Strings = Vec<String>;
pub proof fn text_cut(t: Seq<char>, runs: Seq<FormatRun>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures chars_of(between(written(t, runs), a, b)) == t.subrange(a, b), written(t, runs).len() == t.len(),
{ assert(chars_of(between(written(t, runs), a, b)) =~= t.subrange(a, b)); }
pub proof fn copies_skip(f: Seq<FragmentBlock>, s: Store, b: Seq<Block>, first: int, k: int, lo: int, hi: int, lists: Map<u64, Option<List>>)
    requires 0 <= k < b.len(), copies(f, s, b, first, k, lo, hi, lists), !meets(s, b, k, lo, hi),
    ensures copies(f, s, b, first, k + 1, lo, hi, lists),
{
    hide(copy_of); hide(meets);
    assert forall|q: int| 0 <= q < f.len() implies copied(#[trigger] f[q], s, b, first + q, lo, hi, lists) by { }
    assert forall|i: int| 0 <= i < k + 1 && !(first <= i < first + f.len()) implies !#[trigger] meets(s, b, i, lo, hi) by { if i < k { } }
}
pub proof fn copies_add(f: Seq<FragmentBlock>, x: FragmentBlock, s: Store, b: Seq<Block>, first: int, k: int, lo: int, hi: int, lists: Map<u64, Option<List>>)
    requires 0 <= k < b.len(), copies(f, s, b, first, k, lo, hi, lists), meets(s, b, k, lo, hi), copy_of(x, s, b, k, lo, hi, lists), first + f.len() == k,
    ensures copies(f.push(x), s, b, first, k + 1, lo, hi, lists),
{
    hide(copy_of); hide(meets);
    let g = f.push(x);
    assert forall|q: int| 0 <= q < g.len() implies copied(#[trigger] g[q], s, b, first + q, lo, hi, lists) by { if q < f.len() { assert(g[q] == f[q]); } }
    assert forall|i: int| 0 <= i < k + 1 && !(first <= i < first + g.len()) implies !#[trigger] meets(s, b, i, lo, hi) by { }
}
/// a selection meets paragraphs that stand together
pub proof fn together(s: Store, b: Seq<Block>, first: int, k: int, lo: int, hi: int)
    requires document(s, b), 0 <= first < k < b.len(), meets(s, b, first, lo, hi), meets(s, b, k, lo, hi),
    ensures meets(s, b, k - 1, lo, hi),
{
    hide(joined); hide(before);
    let l = lines_of(s, b);
    assert(b[k].document_position == at_line(l, k)); assert(b[first].document_position == at_line(l, first)); assert(b[k - 1].document_position == at_line(l, k - 1));
    lines_up(l, first, k - 1); lines_up(l, k - 1, k);
    assert(text_of(s, b[first]) == l[first]); assert(text_of(s, b[k - 1]) == l[k - 1]);
}
pub proof fn copies_step(f0: Seq<FragmentBlock>, f1: Seq<FragmentBlock>, s: Store, b: Seq<Block>, first: int, k: int, lo: int, hi: int, lists: Map<u64, Option<List>>) -> (first2: int)
    requires document(s, b), 0 <= k < b.len(), copies(f0, s, b, first, k, lo, hi, lists),
        if meets(s, b, k, lo, hi) { f1.len() > 0 && f1 == f0.push(f1.last()) && copy_of(f1.last(), s, b, k, lo, hi, lists) } else { f1 == f0 },
    ensures copies(f1, s, b, first2, k + 1, lo, hi, lists),
{
    hide(copy_of); hide(meets); hide(document);
    if meets(s, b, k, lo, hi) {
        if f0.len() == 0 {
            assert(copies(f0, s, b, k, k, lo, hi, lists));
            copies_add(f0, f1.last(), s, b, k, k, lo, hi, lists);
            k
        } else {
            assert(copied(f0[0], s, b, first + 0, lo, hi, lists)); assert(meets(s, b, first + 0, lo, hi));
            together(s, b, first, k, lo, hi);
            copies_add(f0, f1.last(), s, b, first, k, lo, hi, lists);
            first
        }
    } else { copies_skip(f0, s, b, first, k, lo, hi, lists); first }
}
pub struct Copied { pub text: String, pub data: Ghost<FragmentData>, pub first: Ghost<int>, pub json: String }
//@ fn crates/document_inspection/src/use_cases/extract_fragment_uc.rs ExtractFragmentUseCase::execute
requires document(*store, blocks@), blocks@.len() > 0, 0 <= start < end, start <= joined(lines_of(*store, blocks@)).len(),
ensures
    r is Ok ==> r->Ok_0.text@ == joined(lines_of(*store, blocks@)).subrange(start as int, copied_end(lines_of(*store, blocks@), end as int)),
    r is Ok ==> r->Ok_0.json@ == json(r->Ok_0.data@) && r->Ok_0.data@.tables@.len() == 0 && copies(r->Ok_0.data@.blocks@, *store, blocks@, r->Ok_0.first@, blocks@.len() as int, start as int, end as int, uow.lists@),
//@ rename copy_text
//@ from let mut fragment_blocks: Vec<FragmentBlock> = Vec::new();
//@ to let plain_text = plain_texts.join("\n");
//@ sig (start: i64, end: i64, blocks: Vec<Block>, store: &Store, uow: &Uow) -> Result<Copied, Error>
//@ yields Ok(Copied { text: plain_text, data: Ghost(fragment_data), first: Ghost(first), json: fragment_json })
//@ ret r
//@ rw uow.store() => store
//@ rw blocks.last().map(|b| b.id).unwrap_or_default() => std_last_id(&blocks)
//@ rw list.as_ref().map(FragmentList::from_entity) => std_map_list(&list)
//@ rw extracted_text.clone() => std_clone_string(&extracted_text)
//@ rw serde_json::to_string(&fragment_data) => to_json(&fragment_data)
//@ rw plain_texts.join("\n") => std_join(&plain_texts)
//@ rw vec![] => Vec::new()
//@ rwtype Vec<String> => Strings
//@ top
//raw
hide(copies); hide(progress); hide(copy_of); hide(joined); hide(before); hide(expand); hide(written);
let ghost l = lines_of(*store, blocks@); let ghost (lo, hi) = (start as int, end as int); let ghost mut first: int = 0; let ghost n = blocks@.len() as int;
let ghost whole = joined(l);
//@ loop 0 before
assert(copies(fragment_blocks@, *store, blocks@, first, 0, lo, hi, uow.lists@)) by { reveal(copies); }
assert(progress(l, 0, lo, hi, strings(plain_texts@))) by { reveal(progress); reveal(before); }
//@ loop 0 it
invariant
    it.seq().len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] it.seq()[i]) == blocks@[i], n == blocks@.len(), l == lines_of(*store, blocks@), whole == joined(l), document(*store, blocks@), lo == start, hi == end, 0 <= lo < hi, lo <= whole.len(),
    plain_texts@.len() == fragment_blocks@.len(),
    copies(fragment_blocks@, *store, blocks@, first, it.index@ as int, lo, hi, uow.lists@),
    progress(l, it.index@ as int, lo, hi, strings(plain_texts@)),
//@ loop 0 top
//raw
let ghost k = it.index@ as int; let ghost q0 = plain_texts@; let ghost f0 = fragment_blocks@; let ghost t = l[k];
proof { assert(*block == blocks@[k]); assert(blocks@[k].document_position == at_line(l, k)); line_at(l, k); ends(t); assert(t == text_of(*store, blocks@[k])); assert(blocks@.last() == blocks@[n - 1]);
    if k < n - 1 { assert(blocks@[k].id != blocks@[n - 1].id); } }
//@ loop 0 bottom
advance(l, k, lo, hi, strings(q0), strings(plain_texts@));
first = copies_step(f0, fragment_blocks@, *store, blocks@, first, k, lo, hi, uow.lists@);
//@ behind plain_texts.push($x);
text_cut(t, runs_at(*store, *block), local_start as int, local_end as int);
assert(plain_texts@ == q0.push(plain_texts@.last())); assert(strings(plain_texts@) =~= strings(q0).push(t.subrange(local_start as int, local_end as int)));
//@ behind fragment_blocks.push($x);
assert(copy_of(fragment_blocks@.last(), *store, blocks@, k, lo, hi, uow.lists@)) by { reveal(copy_of); }
//@ loop 0 after
next_line(l, n - 1); assert(progress(l, n, lo, hi, strings(plain_texts@))); reveal(progress);
//@ ahead let plain_text = $x;
assert(copies(fragment_data.blocks@, *store, blocks@, first, blocks@.len() as int, start as int, end as int, uow.lists@));
//@ before extract_elements_in_range 0
text_cut(t, runs_at(*store, *block), 0, 0);
//@ end
}
fn main() {}
