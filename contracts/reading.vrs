use vstd::prelude::*;
use vstd::string::*;
verus! {
//@ use frag_ops.vrs
//@ item crates/document_inspection/src/dtos.rs TextAtPositionDto
//@ use lines.vrs
//@ use store_doc.vrs
#[verifier::external_body] // TRUSTED
pub struct Error { x: u8 }
#[verifier::external_body]
pub fn std_error() -> Error { unimplemented!() }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == least(a as int, b as int) { if a <= b { a } else { b } }
/// paragraphs in order; their positions are assigned here
pub open spec fn fine(s: Store, b: Seq<Block>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> runs_of(runs_at(s, #[trigger] b[i]), text_of(s, b[i]))
    &&& joined(lines_of(s, b)).len() < 0x7fff_ffff
}
pub open spec fn same_blocks(a: Seq<Block>, b: Seq<Block>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).id == b[i].id }
pub proof fn same_lines(s: Store, a: Seq<Block>, b: Seq<Block>)
    requires same_blocks(a, b), ensures lines_of(s, a) == lines_of(s, b), fine(s, b) ==> fine(s, a),
{ assert(lines_of(s, a) =~= lines_of(s, b)); if fine(s, b) { assert forall|i: int| 0 <= i < a.len() implies runs_of(runs_at(s, #[trigger] a[i]), text_of(s, a[i])) by { let x = b[i]; assert(runs_of(runs_at(s, x), text_of(s, x))); } } }
pub open spec fn placed_to(s: Store, b: Seq<Block>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).document_position == at_line(lines_of(s, b), i) }
/// position p lies in paragraph i or at its end
pub open spec fn holds(s: Store, b: Seq<Block>, i: int, p: int) -> bool { b[i].document_position <= p <= b[i].document_position + text_of(s, b[i]).len() }
pub open spec fn held(s: Store, b: Block, p: int) -> bool { b.document_position <= p <= b.document_position + text_of(s, b).len() }
#[verifier::external_body] // TRUSTED: String::new() is empty
pub fn std_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] // TRUSTED: for x in &mut v walks the elements in order
pub fn std_slot(v: &mut Vec<Block>, i: usize) -> (r: &mut Block)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ &mut v[i] }
#[verifier::external_body] // TRUSTED: iter().position(f): the first element that satisfies f
pub fn std_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F, pick: Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)), forall|x: &T, b: bool| f.ensures((x,), b) ==> b == pick@(*x),
    ensures r is Some ==> r->Some_0 < v@.len() && pick@(v@[r->Some_0 as int]) && forall|i: int| 0 <= i < r->Some_0 ==> !pick@(#[trigger] v@[i]),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> !pick@(#[trigger] v@[i]),
{ v.iter().position(f) }
/// some paragraph holds every position of the text
pub proof fn some_line(l: Lines, p: int, k: int)
    requires 0 <= k < l.len(), at_line(l, k) <= p <= joined(l).len(),
    ensures exists|i: int| k <= i < l.len() && at_line(l, i) <= p <= at_line(l, i) + (#[trigger] l[i]).len(),
    decreases l.len() - k,
{ line_at(l, k); if p > at_line(l, k) + l[k].len() { some_line(l, p, k + 1); } else { let x = l[k]; } }
/// there are no more lines than characters and one
pub proof fn few_lines(l: Lines, k: int)
    requires 0 <= k <= l.len(),
    ensures at_line(l, k) >= k, k == l.len() && k > 0 ==> k <= joined(l).len() + 1,
    decreases k,
{ if k > 0 { few_lines(l, k - 1); } }
pub proof fn written_len(t: Seq<char>, runs: Seq<FormatRun>) ensures written(t, runs).len() == t.len() { }
pub proof fn starts_at_zero(l: Lines) ensures at_line(l, 0) == 0 { }
/// the text collected from the first n segments of a paragraph t, reading from offset o at most m characters
pub open spec fn part(t: Seq<char>, o: int, m: int, c: int) -> Seq<char> { t.subrange(least(o, c), least(c, o + m)) }
pub open spec fn bytes_to(t: Seq<char>, c: int) -> nat { blen(t.take(c)) }
pub proof fn seg_text(segs: Seq<InlineSegment>, n: int, t: Seq<char>, runs: Seq<FormatRun>)
    requires 0 <= n < segs.len(), expand(seg_pieces(segs)) == written(t, runs),
    ensures ({ let c = expand(seg_pieces(segs.take(n))).len() as int; let x = seg_piece(segs[n]).0;
        expand(seg_pieces(segs.take(n + 1))).len() == c + x.len() && c + x.len() <= t.len() && x == t.subrange(c, c + x.len()) && bytes_to(t, c + x.len()) == bytes_to(t, c) + blen(x) && bytes_to(t, c + x.len()) <= blen(t) }),
{
    hide(blen); hide(fmt_at);
    let c = expand(seg_pieces(segs.take(n))).len() as int; let x = seg_piece(segs[n]).0; let f = seg_piece(segs[n]).1;
    seg_take(segs, n); seg_prefix(segs, n + 1);
    let e = expand(seg_pieces(segs.take(n + 1)));
    assert(e.len() == c + x.len());
    assert(e.len() <= t.len());
    assert forall|j: int| 0 <= j < x.len() implies x[j] == t.subrange(c, c + x.len())[j] by { assert(e[c + j] == spread(x, f)[j]); assert(e[c + j] == expand(seg_pieces(segs))[c + j]); assert(written(t, runs)[c + j].0 == t[c + j]); }
    assert(x =~= t.subrange(c, c + x.len()));
    blen_mono(t, c, c + x.len());
}
pub proof fn seg_take(s: Seq<InlineSegment>, n: int)
    requires 0 <= n < s.len(),
    ensures expand(seg_pieces(s.take(n + 1))) == expand(seg_pieces(s.take(n))) + spread(seg_piece(s[n]).0, seg_piece(s[n]).1),
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); seg_push(s.take(n), s[n]); }
pub proof fn seg_prefix(s: Seq<InlineSegment>, n: int)
    requires 0 <= n <= s.len(),
    ensures expand(seg_pieces(s.take(n))).len() <= expand(seg_pieces(s)).len(), forall|k: int| 0 <= k < expand(seg_pieces(s.take(n))).len() ==> expand(seg_pieces(s.take(n)))[k] == #[trigger] expand(seg_pieces(s))[k],
    decreases s.len() - n,
{ if n < s.len() { seg_take(s, n); seg_prefix(s, n + 1); } else { assert(s.take(n) =~= s); } }
pub proof fn part_add(t: Seq<char>, o: int, m: int, c: int, x: Seq<char>)
    requires 0 <= o <= t.len(), 0 <= m, 0 <= c, c + x.len() <= t.len(), x == t.subrange(c, c + x.len()),
    ensures
        c + x.len() <= o ==> part(t, o, m, c + x.len()) == part(t, o, m, c),
        c + x.len() > o ==> ({ let a = if o > c { o - c } else { 0 }; let left = m - part(t, o, m, c).len(); let k = least(x.len() - a, left);
            0 <= left && 0 <= a <= a + k <= x.len() && part(t, o, m, c + x.len()) == part(t, o, m, c) + x.subrange(a, a + k) }),
{
    let n = c + x.len();
    if n <= o { assert(part(t, o, m, n) =~= part(t, o, m, c)); }
    else {
        let a = if o > c { o - c } else { 0 }; let left = m - part(t, o, m, c).len(); let k = least(x.len() - a, left);
        assert(part(t, o, m, n) =~= part(t, o, m, c) + x.subrange(a, a + k));
    }
}
pub proof fn part_done(t: Seq<char>, o: int, m: int, c: int)
    requires 0 <= o <= t.len(), 0 <= m, 0 <= c <= t.len(), c == t.len() || part(t, o, m, c).len() == m,
    ensures part(t, o, m, c) == part(t, o, m, t.len() as int),
{ if m > 0 || c == t.len() { assert(part(t, o, m, c) =~= part(t, o, m, t.len() as int)); } else { assert(part(t, o, m, c) =~= part(t, o, m, t.len() as int)); } }
/// reading the rest of line k (offset o) after what was read before it
pub proof fn read_line(l: Lines, k: int, p: int, got: int, o: int, m: int)
    requires 0 <= k < l.len(), 0 <= p, 0 <= got, 0 <= m, 0 <= o <= l[k].len(), p + got == at_line(l, k) + o, p + got <= joined(l).len(),
    ensures
        joined(l).subrange(p, p + got) + part(l[k], o, m, l[k].len() as int) == joined(l).subrange(p, p + got + part(l[k], o, m, l[k].len() as int).len()),
        p + got + part(l[k], o, m, l[k].len() as int).len() <= joined(l).len(),
        part(l[k], o, m, l[k].len() as int).len() == least(m, l[k].len() - o),
{
    let w = joined(l); line_at(l, k); let a = at_line(l, k);
    let x = part(l[k], o, m, l[k].len() as int);
    assert(l[k] == w.subrange(a, a + l[k].len()));
    assert forall|j: int| 0 <= j < x.len() implies x[j] == w[a + o + j] by { assert(l[k][o + j] == w.subrange(a, a + l[k].len())[o + j]); }
    assert(w.subrange(p, p + got) + x =~= w.subrange(p, p + got + x.len()));
}
//@ fn crates/document_inspection/src/use_cases/get_text_at_position_uc.rs GetTextAtPositionUseCase::execute
//@ from let mut running: i64 = 0;
//@ to for (block_idx, block) in blocks.iter().enumerate().skip($k) $b
//@ rename read_text
//@ sig (position: i64, length: i64, blocks: Vec<Block>, store: &Store) -> Result<String, Error>
//@ yields Ok(collected_text)
requires fine(*store, blocks@), 0 <= length,
ensures
    // reading works exactly at the places of the text
    r is Ok <==> blocks@.len() > 0 && 0 <= position <= joined(lines_of(*store, blocks@)).len(),
    // and gives the text from there on, as far as it goes
    r is Ok ==> r->Ok_0@ == joined(lines_of(*store, blocks@)).subrange(position as int, least(position + length, joined(lines_of(*store, blocks@)).len() as int)),
//@ ret r
//@ rwstmt let store = uow.store(); =>
//@ rw uow.store() => store
//@ rw &store => store
//@ rw &&store => store
//@ rwstmt for block in &mut blocks { $b } => let nb = blocks.len(); for bi in 0..nb { let block = std_slot(&mut blocks, bi); $b }
//@ rw blocks.iter().position(|b| { $b }).ok_or_else(|| $e)? => (match std_position(&blocks, closure« -> (y: bool) requires 0 <= b.document_position <= 0x7fff_ffff && text_of(*store, *b).len() <= 0x7fff_ffff ensures y == held(*store, *b, position as int)»(|b: &Block| { $b }), Ghost(|b: Block| held(*store, b, position as int))) { Some(x) => x, None => { proof« if blocks@.len() > 0 && 0 <= position && position <= w.len() { starts_at_zero(l); some_line(l, position as int, 0); let i = choose|i: int| 0 <= i < l.len() && at_line(l, i) <= position as int <= at_line(l, i) + (#[trigger] l[i]).len(); assert(l[i] == text_of(*store, blocks@[i])); assert(held(*store, blocks@[i], position as int)); } » return Err(std_error()); } })
//@ rwstmt for (block_idx, block) in blocks.iter().enumerate().skip($k) { $b } => for block_idx in $k..blocks.len() { let block = &blocks[block_idx]; $b }
//@ rw String::new() => std_new_string()
//@ rw s.clone() => std_clone_string(s)
//@ rw "\u{FFFC}".to_string() => std_to_string("\u{FFFC}")
//@ rw elem_text.chars().count() => std_char_count(&elem_text)
//@ rw elem_text.chars().collect() => std_chars(&elem_text)
//@ rw elem_chars[$a..$b].iter().collect() => std_collect(&elem_chars, $a, $b)
//@ rw available.min(remaining) => min_usize(available, remaining)
//@ rw $a.saturating_sub($b) => sat_sub($a, $b)
//@ rw collected_text.push_str(&slice) => std_push_str(&mut collected_text, &slice)
//@ rw collected_text.push($c) => std_push(&mut collected_text, $c)
//@ rw s.len() => std_len(s)
//@ top
//raw
hide(joined); hide(before); hide(expand); hide(written);
let mut blocks = blocks; let ghost bs = blocks@; let ghost l = lines_of(*store, bs); let ghost w = joined(l); let ghost n = l.len() as int;
//@ loop 0 before
starts_at_zero(l);
//@ loop 0
invariant
    nb == n, n == l.len(), l == lines_of(*store, bs), w == joined(l), fine(*store, bs), same_blocks(blocks@, bs), placed_to(*store, blocks@, bi as int), running == at_line(l, bi as int), blocks@.len() == n,
//@ loop 0 top
//raw
let ghost b0 = blocks@;
proof { same_lines(*store, b0, bs); line_at(l, bi as int); next_line(l, bi as int); assert(w.len() < 0x7fff_ffff); }
//@ loop 0 bottom
assert(blocks@ =~= b0.update(bi as int, blocks@[bi as int]));
assert(same_blocks(blocks@, bs));
same_lines(*store, blocks@, bs);
//@ loop 0 after
same_lines(*store, blocks@, bs);
assert forall|i: int| 0 <= i < n implies 0 <= (#[trigger] blocks@[i]).document_position <= 0x7fff_ffff && text_of(*store, blocks@[i]).len() <= 0x7fff_ffff by { line_at(l, i); assert(l[i] == text_of(*store, blocks@[i])); }
//@ behind let first_block = $x;
//raw
let ghost f = first_block_idx as int; let ghost p = position as int;
proof { line_at(l, f); assert(l[f] == text_of(*store, blocks@[f])); assert(blocks@[f].document_position == at_line(l, f)); }
//@ loop 1 before
next_line(l, n - 1);
assert(w.subrange(p, p) =~= Seq::<char>::empty());
assert(collected_text@ == w.subrange(p, p));
//@ loop 1
invariant_except_break
    block_idx > f ==> remaining == 0 || p + (length - remaining) == at_line(l, block_idx as int) - 1,
    block_idx == f ==> remaining == length,
invariant
    n == l.len(), n == blocks@.len(), l == lines_of(*store, blocks@), w == joined(l), w.len() < 0x7fff_ffff, fine(*store, blocks@), p == position, f == first_block_idx, 0 <= f < n, 0 <= p, offset_in_first_block == p - at_line(l, f), 0 <= p - at_line(l, f) <= l[f].len(), p <= w.len(), at_line(l, n) - 1 == w.len(),
    0 <= remaining <= length, collected_text@ == w.subrange(p, p + (length - remaining)), p + (length - remaining) <= w.len(),
ensures remaining == 0 || p + (length - remaining) == w.len(),
//@ loop 1 top
//raw
let ghost k = block_idx as int; let ghost t = l[k]; let ghost runs = runs_at(*store, blocks@[k]);
proof { assert(t == text_of(*store, blocks@[k])); assert(runs_of(runs, t)); line_at(l, k); next_line(l, k); line_at(l, f); if k > f { line_at(l, k - 1); next_line(l, k - 1); lines_up(l, f, k); }
    let q = p + (length - remaining); if k > f && remaining > 0 { assert(w[q] == '\n'); assert(w.subrange(p, q).push('\n') =~= w.subrange(p, q + 1)); } }
//@ loop 2 before
//raw
let ghost c0 = collected_text@; let ghost r0 = remaining as int; let ghost o = block_offset as int; let ghost mut m: int = 0; let ghost segs = owned_segments@;
proof {
    assert(segs.take(0) =~= Seq::<InlineSegment>::empty()); assert(seg_pieces(segs.take(0)) =~= Seq::empty()); reveal(expand);
    assert(part(t, o, r0, 0) =~= Seq::<char>::empty()); assert(c0 + part(t, o, r0, 0) =~= c0);
    assert(segs.take(segs.len() as int) =~= segs); written_len(t, runs); assert(t.take(0) =~= Seq::<char>::empty()); blen_ge(Seq::<char>::empty());
}
//@ loop 2 it
invariant_except_break m == it.index@,
invariant
    it.seq().len() == segs.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == segs[i], texts(segs), expand(seg_pieces(segs)) == written(t, runs), blen(t) <= u32::MAX, 0 <= o <= t.len(), t.len() <= u32::MAX, 0 <= m <= segs.len(), o == block_offset, 0 <= r0,
    current_char_offset == expand(seg_pieces(segs.take(m))).len(), current_char_offset <= t.len(), expand(seg_pieces(segs.take(segs.len() as int))).len() == t.len(), current_byte_offset == bytes_to(t, current_char_offset as int),
    collected_text@ == c0 + part(t, o, r0, current_char_offset as int), remaining == r0 - part(t, o, r0, current_char_offset as int).len(),
ensures current_char_offset == t.len() || part(t, o, r0, current_char_offset as int).len() == r0,
//@ loop 2 top
//raw
let ghost c = current_char_offset as int; let ghost g0 = collected_text@;
proof { assert(segs[m].content is Text); seg_text(segs, m, t, runs); part_add(t, o, r0, c, seg_piece(segs[m]).0); }
//@ loop 2 bottom
m = m + 1;
//@ loop 2 after
assert(segs.take(segs.len() as int) =~= segs);
//@ loop 1 bottom
part_done(t, o, r0, current_char_offset as int);
read_line(l, k, p, length - r0, o, r0);
//@ end

// ---- the paragraph at a position
//@ item crates/document_inspection/src/dtos.rs BlockInfoDto
#[verifier::external_body] // TRUSTED: &v[..n] is the first n elements
pub fn std_front<'a>(v: &'a Vec<u64>, n: usize) -> (r: &'a [u64]) requires n <= v@.len(), ensures r@ == v@.take(n as int) { &v[..n] }
pub struct Uow { x: u8 }
impl Uow {
    #[verifier::external_body] // TRUSTED: the block table has the blocks of the element order
    pub fn get_block(&self, id: &u64) -> (r: Result<Option<Block>, Error>) ensures r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0.id == *id { unimplemented!() }
    #[verifier::external_body] // TRUSTED: ends the reading transaction
    pub fn end_transaction(&self) -> Result<(), Error> { unimplemented!() }
}
pub open spec fn id_lines(s: Store, ids: Seq<u64>) -> Lines { Seq::new(ids.len(), |i: int| s.texts@[ids[i]]) }
pub open spec fn line_end(l: Lines, k: int) -> int { at_line(l, k) + l[k].len() }
/// position p belongs to paragraph k: within its text, or at the break before it, unless an empty paragraph before claims it; the last one owns all behind
pub open spec fn is_para(l: Lines, p: int, k: int) -> bool {
    &&& 0 <= k < l.len()
    &&& k == l.len() - 1 || p < line_end(l, k) || (l[k].len() == 0 && p == line_end(l, k))
    &&& k == 0 || p > line_end(l, k - 1) || (l[k - 1].len() > 0 && p == line_end(l, k - 1))
}
pub open spec fn tells(l: Lines, ids: Seq<u64>, p: int, r: BlockInfoDto) -> bool {
    let k = r.block_number as int;
    is_para(l, p, k) && r.block_id == ids[k] as i64 && r.block_start == at_line(l, k) && r.block_length == l[k].len()
}
//@ fn crates/document_inspection/src/use_cases/get_block_at_position_uc.rs GetBlockAtPositionUseCase::execute
//@ from let mut running_pos: i64 = 0;
//@ to if let Some(&last_id) = ordered_block_ids.last() $b
//@ rename walk_to_block
//@ sig (position: i64, ordered_block_ids: Vec<u64>, store: &Store, uow: &Uow) -> Result<BlockInfoDto, Error>
//@ yields Err(std_error())
requires joined(id_lines(*store, ordered_block_ids@)).len() < 0x7fff_ffff,
ensures r is Ok ==> tells(id_lines(*store, ordered_block_ids@), ordered_block_ids@, position as int, r->Ok_0),
//@ ret r
//@ rw $x?.ok_or_else(|| $e)? => (match $x? { Some(d) => d, None => { return Err(std_error()); } })
//@ rw &store => store
//@ rw uow.store() => store
//@ rw &ordered_block_ids[..$n] => std_front(&ordered_block_ids, $n)
//@ rw if let Some(&last_id) = ordered_block_ids.last() { $b } => if ordered_block_ids.len() > 0 { let last_id = ordered_block_ids[ordered_block_ids.len() - 1]; $b }
//@ top
//raw
hide(joined); hide(before);
let ghost ids = ordered_block_ids@; let ghost l = id_lines(*store, ids); let ghost n = l.len() as int; let ghost p = position as int;
proof { starts_at_zero(l); if n > 0 { line_at(l, n - 1); lines_up(l, 0, n - 1); few_lines(l, n); } }
//@ loop 0
invariant
    ids == ordered_block_ids@, l == id_lines(*store, ids), n == l.len(), n == ids.len(), n <= 0x7fff_ffff, p == position, joined(l).len() < 0x7fff_ffff,
    running_pos == at_line(l, block_number as int), block_number > 0 ==> p > line_end(l, block_number - 1) || (l[block_number - 1].len() > 0 && p == line_end(l, block_number - 1)),
//@ loop 0 top
line_at(l, block_number as int); next_line(l, block_number as int); lines_up(l, 0, block_number as int); starts_at_zero(l);
assert(l[block_number as int] == store.texts@[ids[block_number as int]]);
//@ loop 0 after
if n > 0 { assert(p > line_end(l, n - 1) || (l[n - 1].len() > 0 && p == line_end(l, n - 1))); line_at(l, n - 1); if n > 1 { lines_up(l, n - 2, n - 1); line_at(l, n - 2); } assert(is_para(l, p, n - 1)); assert(l[n - 1] == store.texts@[ids[n - 1]]); }
//@ loop 1 it
invariant it.seq().len() == n - 1, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == ids[i], ids == ordered_block_ids@, l == id_lines(*store, ids), n == l.len(), n == ids.len(), n > 0, joined(l).len() < 0x7fff_ffff, pos == at_line(l, it.index@ as int),
//@ loop 1 top
let kk = it.index@;
line_at(l, kk as int); next_line(l, kk as int); lines_up(l, 0, kk as int); starts_at_zero(l);
assert(l[kk as int] == store.texts@[ids[kk as int]]);
//@ end
}
fn main() {}
