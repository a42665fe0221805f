// Breaking a paragraph in two: texts, formats of characters, and the record of the new paragraph.
//@ use format_types.vrs
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub type EntityIdOf = u64;
#[derive(Clone, Copy)]
pub struct Stamp { pub x: i64 }
//@ rwtype chrono::DateTime<chrono::Utc> => Stamp
//@ item crates/common/src/entities.rs Alignment
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs MarkerType
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs TextDirection
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs Block
impl Clone for Block {
    #[verifier::external_body] // TRUSTED: derive(Clone) on Block returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: the clock
pub fn std_now() -> Stamp { unimplemented!() }
#[verifier::external_body] // TRUSTED: cloning an optional string, or a list of numbers, gives an equal one
pub fn std_same<T: Clone>(v: &T) -> (r: T) ensures r == *v { v.clone() }
//@ use edit_ops.vrs
impl Store {
    #[verifier::external_body] // TRUSTED: a new record gets a number no paragraph has
    pub fn create_block(&mut self, b: &Block) -> (r: Result<Block>)
        ensures final(self).texts == old(self).texts, final(self).format_runs == old(self).format_runs, r is Ok ==> r->Ok_0 == (Block { id: r->Ok_0.id, ..*b }) && !old(self).texts@.contains_key(r->Ok_0.id),
    { unimplemented!() }
    #[verifier::external_body] // proved for rope_split_block in rope.vrs
    pub fn split_at(&mut self, id: u64, b: u32, new_id: u64)
        requires old(self).texts@.contains_key(id), !old(self).texts@.contains_key(new_id), on_char(old(self).texts@[id], b as int),
        ensures rest_kept(*final(self), *old(self)), final(self).format_runs == old(self).format_runs, final(self).texts@ == old(self).texts@.insert(id, old(self).texts@[id].take(char_of(old(self).texts@[id], b as int))).insert(new_id, old(self).texts@[id].skip(char_of(old(self).texts@[id], b as int))),
    { unimplemented!() }
}
pub fn std_no_images() -> (r: Vec<ImageAnchor>) ensures r@.len() == 0 { Vec::new() }
pub fn std_no_images2() -> (r: (Vec<ImageAnchor>, Vec<ImageAnchor>)) ensures r.0@.len() == 0, r.1@.len() == 0 { (Vec::new(), Vec::new()) }
/// characters and formats of t from a on (or up to a)
pub open spec fn tail_is(t: Seq<char>, s: Seq<FormatRun>, a: int, t1: Seq<char>, s1: Seq<FormatRun>) -> bool { t1 == t.skip(a) && styled(t1, s1) && forall|i: int| 0 <= i < t1.len() ==> #[trigger] look(t1, s1, i) == look(t, s, a + i) }
pub open spec fn head_is(t: Seq<char>, s: Seq<FormatRun>, a: int, t1: Seq<char>, s1: Seq<FormatRun>) -> bool { t1 == t.take(a) && styled(t1, s1) && forall|i: int| 0 <= i < t1.len() ==> #[trigger] look(t1, s1, i) == look(t, s, i) }
pub proof fn head(t: Seq<char>, s: Seq<FormatRun>, a: int, s1: Seq<FormatRun>)
    requires 0 <= a <= t.len(), styled(t, s), canonical(s1), shows_part(s1, s, 0, blen(t.take(a)) as int),
    ensures head_is(t, s, a, t.take(a), s1),
{
    let u = t.take(a); let off = blen(u) as int;
    assert forall|i: int| 0 <= i <= a implies u.take(i) == #[trigger] t.take(i) by { assert(u.take(i) =~= t.take(i)); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s1, x) == look(t, s, i) by { assert(u.take(i) == t.take(i)); assert(u.take(i + 1) == t.take(i + 1)); blen_mono(t, i + 1, a); assert(in_char(t, x, i)); assert(fmt_at(s1, x) == if 0 <= x < off { fmt_at(s, x) } else { None }); }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] look(u, s1, i) == look(t, s, i) by { take_step(u, i); assert(in_char(u, blen(u.take(i)) as int, i)); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s1, x) == look(u, s1, i) by { assert(look(u, s1, i) == look(t, s, i)); }
    assert forall|x: int| !(0 <= x < blen(u)) implies #[trigger] fmt_at(s1, x) is None by { assert(fmt_at(s1, x) == if 0 <= x < off { fmt_at(s, x) } else { None }); }
}
pub proof fn tail(t: Seq<char>, s: Seq<FormatRun>, a: int, s1: Seq<FormatRun>)
    requires 0 <= a <= t.len(), styled(t, s), canonical(s1), forall|b: int| #[trigger] fmt_at(s1, b) == if b >= 0 { fmt_at(s, b + blen(t.take(a))) } else { None },
    ensures tail_is(t, s, a, t.skip(a), s1),
{
    let u = t.skip(a); let off = blen(t.take(a)) as int;
    assert forall|i: int| 0 <= i <= u.len() implies #[trigger] blen(u.take(i)) + off == blen(t.take(a + i)) by { assert(t.take(a + i) =~= t.take(a) + u.take(i)); blen_add(t.take(a), u.take(i)); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s1, x) == look(t, s, a + i) by { assert(blen(u.take(i)) + off == blen(t.take(a + i))); assert(blen(u.take(i + 1)) + off == blen(t.take(a + (i + 1)))); assert(in_char(t, x + off, a + i)); }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] look(u, s1, i) == look(t, s, a + i) by { take_step(u, i); assert(in_char(u, blen(u.take(i)) as int, i)); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s1, x) == look(u, s1, i) by { assert(look(u, s1, i) == look(t, s, a + i)); }
    assert forall|x: int| !(0 <= x < blen(u)) implies #[trigger] fmt_at(s1, x) is None by { take_all(u); take_all(t); assert(blen(u.take(u.len() as int)) + off == blen(t.take(a + u.len()))); if x >= 0 { assert(fmt_at(s, x + off) is None); } }
}
/// a paragraph that looks like b: the same paragraph formatting, in the same list
pub open spec fn like(n: Block, b: Block) -> bool { n == (Block { id: n.id, created_at: n.created_at, updated_at: n.updated_at, document_position: n.document_position, ..b }) }
pub open spec fn broken(n: Store, o: Store, id: u64, a: int, nid: u64) -> bool {
    let t = o.texts@[id]; let s = runs_of(o.format_runs@, id);
    &&& !o.texts@.contains_key(nid) && n.texts@ == o.texts@.insert(id, t.take(a)).insert(nid, t.skip(a))
    &&& head_is(t, s, a, n.texts@[id], runs_of(n.format_runs@, id)) && tail_is(t, s, a, n.texts@[nid], runs_of(n.format_runs@, nid))
    &&& forall|x: u64| x != id && x != nid ==> #[trigger] runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)
}
//@ fn crates/document_editing/src/use_cases/insert_block_uc.rs execute_insert_block
//@ from let current_runs = $x;
//@ to rope_split_block($a, $b, $c, $d);
//@ rename break_paragraph
//@ yields Ok((created_block, new_block_position))
//@ sig (uow: &mut Store, current_block: Block, offset: i64) -> Result<(Block, i64)>
requires ready(*old(uow), current_block.id), 0 <= offset <= old(uow).texts@[current_block.id].len(), -0x1000_0000_0000_0000 <= current_block.document_position <= 0x1000_0000_0000_0000,
ensures r is Ok ==> broken(*final(uow), *old(uow), current_block.id, offset as int, r->Ok_0.0.id) && like(r->Ok_0.0, current_block) && r->Ok_0.0.document_position == current_block.document_position + offset + 1 && r->Ok_0.1 == r->Ok_0.0.document_position,
//@ ret r
//@ rwstmt let current_runs = $x; => let current_runs = uow.format_runs.read(current_block.id);
//@ rwstmt let current_images = $x; => let current_images = std_no_images();
//@ rwstmt let (left_images, right_images) = $x; => let (left_images, right_images) = std_no_images2();
//@ rwstmt let now = $x; => let now = std_now();
//@ rwstmt let mut owner_frame_id = $x; =>
//@ rwstmt for candidate in &frame_ids $b =>
//@ rwstmt updated_current.updated_at = $x; =>
//@ rwstmt store.block_images.write().unwrap().insert($a, $b); =>
//@ rw block_content_via_store(&current_block, &store) => uow.content(&current_block)
//@ rw current_block_text[..$b].to_string() => std_to_string(std_slice(&current_block_text, 0, $b))
//@ rw current_block_text[$b..].to_string() => std_to_string(std_slice(&current_block_text, $b, std_len(&current_block_text)))
//@ rw text_after.len() => std_len(&text_after)
//@ rw text_before.chars().count() => std_char_count(&text_before)
//@ rw store.format_runs.write().unwrap().insert($a, $b) => uow.format_runs.put($a, $b)
//@ rw uow.create_block($a, $b, $c) => uow.create_block($a)
//@ rw rope_split_block(&store, $a, $b, $c) => uow.split_at($a, $b, $c)
//@ rw current_block.fmt_alignment.clone() => std_same(&current_block.fmt_alignment)
//@ rw current_block.fmt_marker.clone() => std_same(&current_block.fmt_marker)
//@ rw current_block.fmt_tab_positions.clone() => std_same(&current_block.fmt_tab_positions)
//@ rw current_block.fmt_direction.clone() => std_same(&current_block.fmt_direction)
//@ rw current_block.fmt_background_color.clone() => std_same(&current_block.fmt_background_color)
//@ rw current_block.fmt_code_language.clone() => std_same(&current_block.fmt_code_language)
//@ top
//raw let ghost o = *uow; let ghost id = current_block.id; let ghost t = uow.texts@[id]; let ghost s = runs_of(uow.format_runs@, id); let ghost a = offset as int; proof { blen_ge(t); still_there(t, a, a); take_all(t); blen_mono(t, a, a); }
//@ after split_runs_at 0
head(t, s, a, left_runs@); tail(t, s, a, right_runs@);
//@ ahead Ok((created_block, new_block_position))
assert(created_block.id != id);
//@ end
}
