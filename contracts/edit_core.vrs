// Editing inside one paragraph, and joining two: what happens to the text and to the format of every character.
//@ use format_types.vrs
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the two fields of Block used here
//@ use edit_ops.vrs
//@ item crates/document_editing/src/dtos.rs InsertTextDto
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs replace_in_block
requires ready(*old(uow), block.id), 0 <= char_start <= char_end <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(replacement@) <= i32::MAX,
ensures r is Ok ==> edited(*final(uow), *old(uow), block.id, char_start as int, char_end as int, replacement@),
//@ ret r
//@ top
//raw let ghost o = *uow; let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); let ghost mut s1: Seq<FormatRun> = Seq::empty(); proof { blen_ge(t); blen_mono(t, char_start as int, char_end as int); still_there(t, char_start as int, char_end as int); take_all(t); }
//@ after shift_runs_for_delete 0
//raw let ghost cut = runs@; proof { cut_ok(t, s, char_start as int, char_end as int, cut); }
//@ after shift_runs_for_insert 0
s1 = runs@; filled(t, s, char_start as int, char_end as int, replacement@, cut, s1);
//@ ahead Ok(())
assert(splice(splice(t, char_start as int, char_end as int, Seq::empty()), char_start as int, char_start as int, replacement@) =~= splice(t, char_start as int, char_end as int, replacement@)); assert(uow.texts@ =~= o.texts@.insert(block.id, splice(t, char_start as int, char_end as int, replacement@)));
//@ end
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs delete_range_in_block
requires ready(*old(uow), block.id), start_offset < end_offset ==> 0 <= start_offset <= end_offset <= old(uow).texts@[block.id].len(),
ensures r is Ok && start_offset < end_offset ==> edited(*final(uow), *old(uow), block.id, start_offset as int, end_offset as int, Seq::empty()) && r->Ok_0 == end_offset - start_offset,
    start_offset >= end_offset ==> r is Ok && *final(uow) == *old(uow) && r->Ok_0 == 0,
//@ ret r
//@ top
//raw let ghost o = *uow; let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); proof { blen_ge(t); if start_offset < end_offset { blen_mono(t, start_offset as int, end_offset as int); still_there(t, start_offset as int, end_offset as int); } take_all(t); }
//@ after shift_runs_for_delete 0
cut_ok(t, s, start_offset as int, end_offset as int, runs@); emptied(t, s, start_offset as int, end_offset as int, runs@);
//@ end
//@ fn crates/document_editing/src/use_cases/delete_text_uc.rs delete_char_range_in_block
requires ready(*old(uow), block.id), start_offset < end_offset ==> 0 <= start_offset <= end_offset <= old(uow).texts@[block.id].len(),
ensures r is Ok && start_offset < end_offset ==> edited(*final(uow), *old(uow), block.id, start_offset as int, end_offset as int, Seq::empty()) && r->Ok_0 == end_offset - start_offset,
    start_offset >= end_offset ==> r is Ok && *final(uow) == *old(uow) && r->Ok_0 == 0,
//@ ret r
//@ top
//raw let ghost o = *uow; let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); proof { blen_ge(t); if start_offset < end_offset { blen_mono(t, start_offset as int, end_offset as int); still_there(t, start_offset as int, end_offset as int); } take_all(t); }
//@ after shift_runs_for_delete 0
cut_ok(t, s, start_offset as int, end_offset as int, runs@); emptied(t, s, start_offset as int, end_offset as int, runs@);
//@ end
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs execute_insert_simple
//@ from let block_text = $x;
//@ to rope_insert_in_block(&store, block.id, byte_offset, &dto.text);
//@ rename type_simple
//@ yields Ok((inserted_char_len, inserted_byte_len, byte_offset))
//@ sig (uow: &mut Store, block: Block, original_block_images: Vec<ImageAnchor>, offset: i64, dto: &InsertTextDto) -> Result<(i64, u32, u32)>
requires ready(*old(uow), block.id), original_block_images@.len() == 0, 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX,
ensures r is Ok ==> edited(*final(uow), *old(uow), block.id, offset as int, offset as int, dto.text@) && r->Ok_0.0 == dto.text@.len() && r->Ok_0.1 == blen(dto.text@) && r->Ok_0.2 == blen(old(uow).texts@[block.id].take(offset as int)),
//@ ret r
//@ rw dto.text.len() => std_len(&dto.text)
//@ rw dto.text.chars().count() => std_char_count(&dto.text)
//@ rwstmt let mut new_plain = $x; =>
//@ rwstmt new_plain.insert_str($a, $b); =>
//@ top
//raw let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); let ghost o = *uow; proof { blen_ge(t); blen_ge(dto.text@); still_there(t, offset as int, offset as int); take_all(t); blen_mono(t, offset as int, offset as int); cut_ok(t, s, offset as int, offset as int, s); run_inside(t, s); }
//@ after shift_runs_for_insert 0
filled(t, s, offset as int, offset as int, dto.text@, s, runs@);
//@ end
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs execute_insert_with_selection
//@ from let block_text = $x;
//@ to rope_insert_in_block(&store, block.id, byte_offset, &dto.text);
//@ rename type_over
//@ yields Ok((inserted_char_len, inserted_byte_len, byte_offset))
//@ sig (uow: &mut Store, block: Block, images: Vec<ImageAnchor>, offset: i64, dto: &InsertTextDto) -> Result<(i64, u32, u32)>
requires ready(*old(uow), block.id), images@.len() == 0, 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX,
ensures r is Ok ==> edited(*final(uow), *old(uow), block.id, offset as int, offset as int, dto.text@) && r->Ok_0.0 == dto.text@.len() && r->Ok_0.1 == blen(dto.text@) && r->Ok_0.2 == blen(old(uow).texts@[block.id].take(offset as int)),
//@ ret r
//@ rw dto.text.len() => std_len(&dto.text)
//@ rw dto.text.chars().count() => std_char_count(&dto.text)
//@ rwstmt let mut new_plain = $x; =>
//@ rwstmt new_plain.insert_str($a, $b); =>
//@ top
//raw let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); let ghost o = *uow; proof { blen_ge(t); blen_ge(dto.text@); still_there(t, offset as int, offset as int); take_all(t); blen_mono(t, offset as int, offset as int); cut_ok(t, s, offset as int, offset as int, s); run_inside(t, s); }
//@ after shift_runs_for_insert 0
filled(t, s, offset as int, offset as int, dto.text@, s, runs@);
//@ end
//@ fn crates/document_editing/src/use_cases/delete_text_uc.rs execute_delete
//@ from let start_block_text = $x;
//@ to common::database::rope_helpers::rope_delete_in_block($a, $b, $c, $d);
//@ rename delete_here
//@ yields Ok(deleted_text)
//@ sig (uow: &mut Store, start_block: Block, images: Vec<ImageAnchor>, start_offset: i64, end_offset: i64) -> Result<String>
requires ready(*old(uow), start_block.id), images@.len() == 0, 0 <= start_offset <= end_offset <= old(uow).texts@[start_block.id].len(),
ensures r is Ok, edited(*final(uow), *old(uow), start_block.id, start_offset as int, end_offset as int, Seq::empty()), r->Ok_0@ == old(uow).texts@[start_block.id].subrange(start_offset as int, end_offset as int),
//@ ret r
//@ rw block_content_via_store(&start_block, &store) => uow.content(&start_block)
//@ rw start_block_text[$a..$b].to_string() => std_to_string(std_slice(&start_block_text, $a, $b))
//@ rw &start_block_text[..$b] => std_slice(&start_block_text, 0, $b)
//@ rw &start_block_text[$a..] => std_slice(&start_block_text, $a, std_len(&start_block_text))
//@ rw start_block_text.len() => std_len(&start_block_text)
//@ top
//raw let ghost o = *uow; let ghost t = uow.texts@[start_block.id]; let ghost s = runs_of(uow.format_runs@, start_block.id); proof { blen_ge(t); blen_mono(t, start_offset as int, end_offset as int); still_there(t, start_offset as int, end_offset as int); take_all(t); }
//@ after shift_runs_for_delete 0
cut_ok(t, s, start_offset as int, end_offset as int, runs@); emptied(t, s, start_offset as int, end_offset as int, runs@);
//@ end
// ---- joining two paragraphs
pub open spec fn shows_moved(s: Seq<FormatRun>, t: Seq<FormatRun>, eo: int, so: int) -> bool { forall|b: int| #[trigger] fmt_at(s, b) == if b >= so { fmt_at(t, b - so + eo) } else { None } }
pub open spec fn moved_of(x: FormatRun, r: FormatRun, eo: int, so: int) -> bool { x.byte_start < x.byte_end && x.byte_end == r.byte_end - eo + so && x.byte_start == (if r.byte_start >= eo { r.byte_start - eo + so } else { so }) }
pub proof fn moved_step(s: Seq<FormatRun>, t: Seq<FormatRun>, r: FormatRun, eo: int, so: int)
    requires wf(t.push(r)), wf(s), shows_moved(s, t, eo, so), 0 <= eo, 0 <= so,
    ensures
        r.byte_end <= eo ==> shows_moved(s, t.push(r), eo, so),
        forall|x: FormatRun| x.format == r.format && #[trigger] moved_of(x, r, eo, so) ==> wf(s.push(x)) && shows_moved(s.push(x), t.push(r), eo, so),
{
    let t2 = t.push(r);
    assert forall|b: int| #[trigger] fmt_at(t2, b) == if covers(r, b) { Some(r.format) } else { fmt_at(t, b) } by { fmt_at_push(t, r, b); }
    if r.byte_end <= eo {
        assert forall|b: int| #[trigger] fmt_at(s, b) == if b >= so { fmt_at(t2, b - so + eo) } else { None } by { assert(fmt_at(t2, b - so + eo) == if covers(r, b - so + eo) { Some(r.format) } else { fmt_at(t, b - so + eo) }); }
    }
    assert forall|x: FormatRun| x.format == r.format && #[trigger] moved_of(x, r, eo, so) implies wf(s.push(x)) && shows_moved(s.push(x), t.push(r), eo, so) by {
        let s2 = s.push(x);
        assert forall|b: int| #[trigger] fmt_at(s2, b) == if b >= so { fmt_at(t2, b - so + eo) } else { None } by {
            fmt_at_push(s, x, b);
            assert(fmt_at(t2, b - so + eo) == if covers(r, b - so + eo) { Some(r.format) } else { fmt_at(t, b - so + eo) });
            assert(fmt_at(s, b) == if b >= so { fmt_at(t, b - so + eo) } else { None });
        }
        assert(wf(s2)) by {
            assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).byte_end <= (#[trigger] s2[j]).byte_start by {
                if j == s.len() {
                    fmt_at_hit(s, i, s[i].byte_end - 1);
                    assert(fmt_at(s, s[i].byte_end - 1) is Some);
                    let k = fmt_at_some(t, s[i].byte_end - 1 - so + eo);
                    assert(t2[k] == t[k]);
                    assert(t2[k].byte_end <= t2[t.len() as int].byte_start);
                }
            }
        }
    }
}
pub open spec fn byte_joined(ss: Seq<FormatRun>, so: int, se: Seq<FormatRun>, eo: int, b: int) -> Option<CharacterFormat> { if b < so { fmt_at(ss, b) } else { fmt_at(se, b - so + eo) } }
/// the text and formats of one up to a, then those of the other from b
pub open spec fn united(ts: Seq<char>, ss: Seq<FormatRun>, a: int, te: Seq<char>, se: Seq<FormatRun>, b: int, t1: Seq<char>, s1: Seq<FormatRun>) -> bool {
    &&& t1 == ts.take(a) + te.skip(b) && styled(t1, s1)
    &&& forall|i: int| 0 <= i < t1.len() ==> #[trigger] look(t1, s1, i) == if i < a { look(ts, ss, i) } else { look(te, se, i - a + b) }
}
pub proof fn join_bytes(ts: Seq<char>, a: int, te: Seq<char>, b: int, i: int)
    requires 0 <= a <= ts.len(), 0 <= b <= te.len(), 0 <= i <= a + te.len() - b,
    ensures ({ let u = ts.take(a) + te.skip(b); u.len() == a + te.len() - b && (i <= a ==> blen(u.take(i)) == blen(ts.take(i))) && (i >= a ==> blen(u.take(i)) == blen(ts.take(a)) + blen(te.take(i - a + b)) - blen(te.take(b))) }),
{
    let u = ts.take(a) + te.skip(b);
    if i <= a { assert(u.take(i) =~= ts.take(i)); }
    if i >= a { let j = i - a + b; assert(u.take(i) =~= ts.take(a) + te.subrange(b, j)); blen_add(ts.take(a), te.subrange(b, j)); blen_mono(te, b, j); }
}
pub open spec fn join_fits(ss: Seq<FormatRun>, so: int, se: Seq<FormatRun>, eo: int, s1: Seq<FormatRun>) -> bool { forall|x: int| #[trigger] fmt_at(s1, x) == byte_joined(ss, so, se, eo, x) }
pub proof fn one_joined(ts: Seq<char>, ss: Seq<FormatRun>, a: int, te: Seq<char>, se: Seq<FormatRun>, b: int, s1: Seq<FormatRun>, x: int, i: int)
    requires 0 <= a <= ts.len(), 0 <= b <= te.len(), even(ts, ss), even(te, se), in_char(ts.take(a) + te.skip(b), x, i), join_fits(ss, blen(ts.take(a)) as int, se, blen(te.take(b)) as int, s1),
    ensures fmt_at(s1, x) == if i < a { look(ts, ss, i) } else { look(te, se, i - a + b) },
{
    let u = ts.take(a) + te.skip(b); let (so, eo) = (blen(ts.take(a)) as int, blen(te.take(b)) as int);
    assert(u.len() == a + te.len() - b);
    join_bytes(ts, a, te, b, i); join_bytes(ts, a, te, b, i + 1);
    assert(fmt_at(s1, x) == byte_joined(ss, so, se, eo, x));
    if i < a { blen_mono(ts, i + 1, a); assert(in_char(ts, x, i)); } else { blen_mono(te, b, i - a + b); assert(in_char(te, x - so + eo, i - a + b)); }
}
pub proof fn none_joined(ts: Seq<char>, ss: Seq<FormatRun>, a: int, te: Seq<char>, se: Seq<FormatRun>, b: int, s1: Seq<FormatRun>, x: int)
    requires 0 <= a <= ts.len(), 0 <= b <= te.len(), even(ts, ss), even(te, se), !(0 <= x < blen(ts.take(a) + te.skip(b))), join_fits(ss, blen(ts.take(a)) as int, se, blen(te.take(b)) as int, s1),
    ensures fmt_at(s1, x) is None,
{
    let u = ts.take(a) + te.skip(b); let (so, eo) = (blen(ts.take(a)) as int, blen(te.take(b)) as int);
    join_bytes(ts, a, te, b, u.len() as int); take_all(u); take_all(te); blen_mono(te, b, te.len() as int);
    assert(fmt_at(s1, x) == byte_joined(ss, so, se, eo, x));
    if x < 0 { assert(fmt_at(ss, x) is None); } else { assert(fmt_at(se, x - so + eo) is None); }
}
pub proof fn all_joined(ts: Seq<char>, ss: Seq<FormatRun>, a: int, te: Seq<char>, se: Seq<FormatRun>, b: int, s1: Seq<FormatRun>)
    requires 0 <= a <= ts.len(), 0 <= b <= te.len(), styled(ts, ss), styled(te, se), canonical(s1), join_fits(ss, blen(ts.take(a)) as int, se, blen(te.take(b)) as int, s1),
    ensures united(ts, ss, a, te, se, b, ts.take(a) + te.skip(b), s1),
{
    let u = ts.take(a) + te.skip(b);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] look(u, s1, i) == (if i < a { look(ts, ss, i) } else { look(te, se, i - a + b) }) by { take_step(u, i); one_joined(ts, ss, a, te, se, b, s1, blen(u.take(i)) as int, i); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s1, x) == look(u, s1, i) by { one_joined(ts, ss, a, te, se, b, s1, x, i); }
    assert forall|x: int| !(0 <= x < blen(u)) implies #[trigger] fmt_at(s1, x) is None by { none_joined(ts, ss, a, te, se, b, s1, x); }
}
pub proof fn halves(ss: Seq<FormatRun>, se: Seq<FormatRun>, left: Seq<FormatRun>, right: Seq<FormatRun>, so: int, eo: int)
    requires 0 <= so <= inf(), wf(left), wf(right), shows_part(left, ss, 0, so), shows_moved(right, se, eo, so), forall|b: int| b < 0 ==> #[trigger] fmt_at(ss, b) is None,
    ensures wf(left + right), join_fits(ss, so, se, eo, left + right),
{
    part_within(left, ss, 0, so);
    assert(within(right, so, inf())) by { assert forall|i: int| 0 <= i < right.len() implies so <= (#[trigger] right[i]).byte_start && right[i].byte_end <= inf() by { fmt_at_hit(right, i, right[i].byte_start as int); assert(fmt_at(right, right[i].byte_start as int) is Some); } }
    concat_wf(left, right, 0, so, inf());
    assert forall|x: int| #[trigger] fmt_at(left + right, x) == byte_joined(ss, so, se, eo, x) by {
        fmt_at_add(left, right, x);
        assert(fmt_at(left, x) == if 0 <= x < so { fmt_at(ss, x) } else { None }); assert(fmt_at(right, x) == if x >= so { fmt_at(se, x - so + eo) } else { None });
        if x < 0 { assert(fmt_at(ss, x) is None); }
    }
}
pub proof fn join_canon(ss: Seq<FormatRun>, so: int, se: Seq<FormatRun>, eo: int, m: Seq<FormatRun>, s1: Seq<FormatRun>)
    requires join_fits(ss, so, se, eo, m), same(m, s1),
    ensures join_fits(ss, so, se, eo, s1),
{ assert forall|x: int| #[trigger] fmt_at(s1, x) == byte_joined(ss, so, se, eo, x) by { assert(fmt_at(m, x) == fmt_at(s1, x)); } }
pub open spec fn led(l: Seq<Seq<char>>, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { Seq::empty() } else { led(l, k - 1).push('\n') + l[k - 1] } }
pub open spec fn texts_of(st: Store, bs: Seq<Block>, i: int, j: int) -> Seq<Seq<char>> { Seq::new((j - i) as nat, |k: int| st.texts@[bs[i + k].id]) }
#[verifier::external_body] // TRUSTED: slice, iter, map and collect give the contents of these paragraphs in order
pub fn std_contents(st: &Store, bs: &Vec<Block>, i: usize, j: usize) -> (r: Vec<String>)
    requires i <= j <= bs@.len(), forall|k: int| i <= k < j ==> st.texts@.contains_key(#[trigger] bs@[k].id),
    ensures r@.len() == j - i, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == texts_of(*st, bs@, i as int, j as int)[k],
{ unimplemented!() }
pub fn std_no_images() -> (r: Vec<ImageAnchor>) ensures r@.len() == 0 { Vec::new() }
//@ fn crates/document_editing/src/use_cases/delete_text_uc.rs execute_delete
//@ from let store_for_text = $x;
//@ to common::database::rope_helpers::rope_merge_block_range($a, $b, $c, $d, $e);
//@ rename join_blocks
//@ yields Ok(deleted_text)
//@ sig (uow: &mut Store, blocks: Vec<Block>, start_block: Block, end_block: Block, start_block_idx: usize, end_block_idx: usize, start_offset: i64, end_offset: i64) -> Result<String>
requires
    ready(*old(uow), start_block.id), ready(*old(uow), end_block.id), 0 <= start_offset <= old(uow).texts@[start_block.id].len(), 0 <= end_offset <= old(uow).texts@[end_block.id].len(), start_block.id != end_block.id,
    start_block_idx < end_block_idx < blocks@.len(), forall|k: int| start_block_idx < k < end_block_idx ==> old(uow).texts@.contains_key(#[trigger] blocks@[k].id),
ensures
    r is Ok ==> final(uow).texts@.contains_key(start_block.id) && united(old(uow).texts@[start_block.id], runs_of(old(uow).format_runs@, start_block.id), start_offset as int, old(uow).texts@[end_block.id], runs_of(old(uow).format_runs@, end_block.id), end_offset as int, final(uow).texts@[start_block.id], runs_of(final(uow).format_runs@, start_block.id)),
    r is Ok ==> forall|x: u64| x != start_block.id ==> #[trigger] runs_of(final(uow).format_runs@, x) == runs_of(old(uow).format_runs@, x),
    r is Ok ==> r->Ok_0@ == (old(uow).texts@[start_block.id].skip(start_offset as int) + led(texts_of(*old(uow), blocks@, start_block_idx + 1, end_block_idx as int), end_block_idx - start_block_idx - 1)).push('\n') + old(uow).texts@[end_block.id].take(end_offset as int),
//@ ret r
//@ rwstmt let store_for_text = $x; =>
//@ rwstmt drop(store_for_text); =>
//@ rw block_content_via_store(&$b, &store_for_text) => uow.content(&$b)
//@ rw blocks[($a)..$b].iter().map($f).collect() => std_contents(uow, &blocks, $a, $b)
//@ rw read_block_runs_and_images(&**uow, $i) => (uow.format_runs.read($i), std_no_images())
//@ rw String::new() => std_new_string()
//@ rw deleted_text.push_str($x) => std_push_str(&mut deleted_text, $x)
//@ rw deleted_text.push($x) => std_push(&mut deleted_text, $x)
//@ rw &start_block_text[..$b] => std_slice(&start_block_text, 0, $b)
//@ rw &start_block_text[$a..] => std_slice(&start_block_text, $a, std_len(&start_block_text))
//@ rw &end_block_text[..$b] => std_slice(&end_block_text, 0, $b)
//@ rw &end_block_text[$a..] => std_slice(&end_block_text, $a, std_len(&end_block_text))
//@ rwstmt let merged_plain = $x; =>
//@ rwstmt debug_assert_well_formed($a, $b); =>
//@ rw common::format_runs::coalesce_in_place($x) => coalesce_in_place($x)
//@ rwstmt let mut merged_images: Vec<ImageAnchor> = $x; =>
//@ rwstmt for img in &start_images $b =>
//@ rwstmt for img in &end_images $b =>
//@ rwstmt updated_start.updated_at = $x; =>
//@ rwstmt store.block_images.write().unwrap().insert($a, $b); =>
//@ rw store.format_runs.write().unwrap().insert($a, $b) => uow.format_runs.put($a, $b)
//@ rw common::database::rope_helpers::rope_merge_block_range(&store, $a, $b, $c, $d) => uow.join_at($a, $b, $c, $d)
//@ top
//raw let ghost o = *uow; let ghost ts = uow.texts@[start_block.id]; let ghost ss = runs_of(uow.format_runs@, start_block.id); let ghost te = uow.texts@[end_block.id]; let ghost se = runs_of(uow.format_runs@, end_block.id); let ghost (a, b) = (start_offset as int, end_offset as int); let ghost mids = texts_of(*uow, blocks@, start_block_idx + 1, end_block_idx as int);
proof { blen_ge(ts); blen_ge(te); still_there(ts, a, a); still_there(te, b, b); take_all(ts); take_all(te); blen_mono(ts, a, a); blen_mono(te, b, b); run_inside(ts, ss); run_inside(te, se); assert(ts.subrange(a, ts.len() as int) =~= ts.skip(a)); assert(te.subrange(0, b) =~= te.take(b)); }
//@ loop 0 it
invariant
    it.seq().len() == mids.len(), forall|i: int| 0 <= i < it.seq().len() ==> (*(#[trigger] it.seq()[i]))@ == mids[i], deleted_text@ == ts.skip(a) + led(mids, it.index@ as int),
//@ loop 0 top
assert((*it.seq()[it.index@ as int])@ == mids[it.index@ as int]);
//@ loop 0 bottom
assert(deleted_text@ =~= ts.skip(a) + led(mids, it.index@ + 1));
//@ loop 0 after
assert(mids.len() == end_block_idx - start_block_idx - 1);
//@ loop 1 it
invariant
    wf(ss), within(ss, 0, blen(ts) as int), start_runs_orig@ == ss, byte_so == blen(ts.take(a)), it.seq().len() == ss.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == ss[i],
    wf(merged_runs@), shows_part(merged_runs@, ss.take(it.index@), 0, byte_so as int),
//@ loop 1 top
//raw let ghost pre = merged_runs@; proof { assert(*run == ss[it.index@ as int]); take_wf(ss, it.index@ + 1); assert(ss.take(it.index@ + 1) =~= ss.take(it.index@).push(*run)); part_step(pre, ss.take(it.index@), *run, 0, byte_so as int); }
//@ loop 1 bottom
if merged_runs@.len() > pre.len() { assert(merged_runs@ =~= pre.push(merged_runs@.last())); assert(clip_of(merged_runs@.last(), *run, 0, byte_so as int)); }
//@ loop 1 after
//raw let ghost left = merged_runs@; proof { assert(ss.take(ss.len() as int) =~= ss); assert(left.skip(left.len() as int) =~= Seq::<FormatRun>::empty()); assert(left.take(left.len() as int) =~= left); assert(se.take(0) =~= Seq::<FormatRun>::empty()); }
//@ loop 2 it
invariant
    wf(se), within(se, 0, blen(te) as int), end_runs_orig@ == se, byte_so <= i32::MAX, byte_eo == blen(te.take(b)), blen(te) <= i32::MAX, byte_eo <= blen(te), it.seq().len() == se.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == se[i],
    left.len() <= merged_runs@.len(), merged_runs@.take(left.len() as int) == left, wf(merged_runs@.skip(left.len() as int)), shows_moved(merged_runs@.skip(left.len() as int), se.take(it.index@), byte_eo as int, byte_so as int),
//@ loop 2 top
//raw let ghost pre = merged_runs@; proof { assert(*run == se[it.index@ as int]); take_wf(se, it.index@ + 1); assert(se.take(it.index@ + 1) =~= se.take(it.index@).push(*run)); moved_step(pre.skip(left.len() as int), se.take(it.index@), *run, byte_eo as int, byte_so as int); }
//@ loop 2 bottom
if merged_runs@.len() > pre.len() { assert(merged_runs@.skip(left.len() as int) =~= pre.skip(left.len() as int).push(merged_runs@.last())); assert(moved_of(merged_runs@.last(), *run, byte_eo as int, byte_so as int)); assert(merged_runs@.take(left.len() as int) =~= left); }
//@ loop 2 after
//raw let ghost m = merged_runs@; proof {
    let right = m.skip(left.len() as int); assert(se.take(se.len() as int) =~= se); assert(m =~= left + right);
    halves(ss, se, left, right, byte_so as int, byte_eo as int);
}
//@ after coalesce_in_place 0
join_canon(ss, byte_so as int, se, byte_eo as int, m, merged_runs@); all_joined(ts, ss, a, te, se, b, merged_runs@);
//@ end
}
