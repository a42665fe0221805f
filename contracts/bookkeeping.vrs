// What deleting and breaking paragraphs do to the records: which paragraphs remain, in which order, where they stand, and the counts.
use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the fields of Block used here
#[derive(Clone, Copy)]
pub struct Document { pub character_count: i64, pub block_count: i64 } // TRUSTED: the fields of Document used here
pub struct Frame { pub id: u64, pub child_order: Vec<i64>, pub blocks: Vec<u64> } // TRUSTED: the fields of Frame used here
/// TRUSTED: the parts of the store the bookkeeping touches
pub struct Store {
    pub positions: Ghost<Map<u64, i64>>, // the stored position of every paragraph there is
    pub doc: Ghost<Document>,
    pub order: Ghost<Map<u64, Seq<i64>>>, // the children of every frame, in order
    pub members: Ghost<Map<u64, Seq<u64>>>,
    pub indexed: Ghost<Set<u64>>, // the paragraphs that have text
    pub styled: Ghost<Set<u64>>, // the paragraphs that may have runs
    pub flow: Ghost<bool>, // positions are derived from the text rather than stored
}
pub open spec fn put_all(m: Map<u64, i64>, bs: Seq<Block>) -> Map<u64, i64>
    decreases bs.len()
{ if bs.len() == 0 { m } else { put_all(m, bs.drop_last()).insert(bs.last().id, bs.last().document_position) } }
impl Store {
    #[verifier::external_body] // TRUSTED: writing a paragraph's record: of all this only its own position
    pub fn update_block(&mut self, b: &Block) -> (r: Result<Block>)
        ensures r is Ok ==> *final(self) == (Store { positions: Ghost(old(self).positions@.insert(b.id, b.document_position)), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: writing the records of several paragraphs, one after another
    pub fn update_block_multi(&mut self, bs: &Vec<Block>) -> (r: Result<Vec<Block>>)
        ensures r is Ok ==> *final(self) == (Store { positions: Ghost(put_all(old(self).positions@, bs@)), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: removing a paragraph's record
    pub fn remove_block(&mut self, id: &EntityId) -> (r: Result<()>)
        ensures r is Ok ==> *final(self) == (Store { positions: Ghost(old(self).positions@.remove(*id)), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: rope_remove_block: the paragraph has no text any more (rope.vrs)
    pub fn unindex(&mut self, id: EntityId) ensures *final(self) == (Store { indexed: Ghost(old(self).indexed@.remove(id)), ..*old(self) }), { unimplemented!() }
    #[verifier::external_body] // TRUSTED: drop_block_runs_and_images: the paragraph's entries leave the run and image tables
    pub fn unstyle(&mut self, id: EntityId) ensures *final(self) == (Store { styled: Ghost(old(self).styled@.remove(id)), ..*old(self) }), { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading a frame's record
    pub fn the_frame(&self, id: &EntityId) -> (r: Result<Frame>) ensures r is Ok ==> r->Ok_0.id == *id && r->Ok_0.child_order@ == self.order@[*id] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the paragraphs of a frame
    pub fn blocks_of(&self, f: &EntityId) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.members@[*f] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: writing a frame's record
    pub fn update_frame(&mut self, f: &Frame) -> (r: Result<Frame>)
        ensures r is Ok ==> *final(self) == (Store { order: Ghost(old(self).order@.insert(f.id, f.child_order@)), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: writing the document's record
    pub fn update_document(&mut self, d: &Document) -> (r: Result<Document>) ensures r is Ok ==> *final(self) == (Store { doc: Ghost(*d), ..*old(self) }), { unimplemented!() }
    #[verifier::external_body] // TRUSTED: whether positions are derived from the text depends on the structure alone
    pub fn flows(&self) -> (r: bool) ensures r == self.flow@ { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: &v[a..] visits the elements from a on
pub fn std_tail<'a>(v: &'a Vec<Block>, a: usize) -> (r: Vec<&'a Block>) requires a <= v@.len(), ensures r@.len() == v@.len() - a, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[a + i] { v[a..].iter().collect() }
pub open spec fn ids_in(bs: Seq<Block>, a: int, b: int) -> Seq<u64> { Seq::new((b - a) as nat, |i: int| bs[a + i].id) }
#[verifier::external_body] // TRUSTED: v[a..=b].iter().map(|b| b.id).collect()
pub fn std_ids(v: &Vec<Block>, a: usize, b: usize) -> (r: Vec<u64>) requires a <= b < v@.len(), ensures r@ == ids_in(v@, a as int, b + 1) { v[a..=b].iter().map(|b| b.id).collect() }
#[verifier::external_body] // TRUSTED: Frame::clone
pub fn std_clone_frame(f: &Frame) -> (r: Frame) ensures r.id == f.id, r.child_order@ == f.child_order@ { unimplemented!() }
pub open spec fn without(s: Seq<i64>, gone: Seq<u64>) -> Seq<i64>
    decreases s.len()
{ if s.len() == 0 { s } else { let r = without(s.drop_last(), gone); if gone.contains(s.last() as u64) { r } else { r.push(s.last()) } } }
#[verifier::external_body] // TRUSTED: Vec::retain(|id| !gone.contains(&(*id as u64)))
pub fn std_retain_not(v: &mut Vec<i64>, gone: &Vec<u64>) ensures final(v)@ == without(old(v)@, gone@) { v.retain(|id| !gone.contains(&(*id as u64))) }
#[verifier::external_body] // TRUSTED: str::chars().count()
pub fn std_char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
pub open spec fn total(ts: Seq<String>) -> int
    decreases ts.len()
{ if ts.len() == 0 { 0 } else { total(ts.drop_last()) + ts.last()@.len() } }
#[verifier::external_body] // TRUSTED: iter().map(|t| t.chars().count() as i64).sum()
pub fn std_total(v: &Vec<String>) -> (r: i64) requires total(v@) <= i64::MAX, ensures r == total(v@) { v.iter().map(|t| t.chars().count() as i64).sum() }
#[verifier::external_body]
pub struct CellFrames { x: u8 } // TRUSTED: HashMap<EntityId, EntityId>
impl CellFrames {
    pub uninterp spec fn view(&self) -> Map<u64, u64>;
    #[verifier::external_body] // TRUSTED: HashMap::get(..).copied().unwrap_or(..)
    pub fn or(&self, id: u64, d: u64) -> (r: u64) ensures r == (if self@.contains_key(id) { self@[id] } else { d }) { unimplemented!() }
}
/// the paragraphs of v from a on stand d further; the others as before
pub open spec fn moved_from(n: Map<u64, i64>, o: Map<u64, i64>, v: Seq<Block>, a: int, d: int) -> bool {
    &&& forall|k: int| a <= k < v.len() ==> n.contains_key((#[trigger] v[k]).id) && n[v[k].id] == v[k].document_position + d
    &&& forall|x: u64| (forall|k: int| a <= k < v.len() ==> (#[trigger] v[k]).id != x) ==> (#[trigger] n.contains_key(x) == o.contains_key(x)) && n[x] == o[x]
}
pub open spec fn moves(bs: Seq<Block>, v: Seq<Block>, a: int, d: int) -> bool { a + bs.len() <= v.len() && forall|k: int| 0 <= k < bs.len() ==> (#[trigger] bs[k]).id == v[a + k].id && bs[k].document_position == v[a + k].document_position + d }
pub open spec fn distinct(bs: Seq<Block>) -> bool { forall|i: int, j: int| 0 <= i < j < bs.len() ==> (#[trigger] bs[i]).id != (#[trigger] bs[j]).id }
pub proof fn put_moves(o: Map<u64, i64>, bs: Seq<Block>, v: Seq<Block>, a: int, d: int)
    requires moves(bs, v, a, d), distinct(v), 0 <= a,
    ensures moved_from(put_all(o, bs), o, v.take(a + bs.len()), a, d),
    decreases bs.len(),
{
    let n = put_all(o, bs); let w = v.take(a + bs.len());
    if bs.len() > 0 {
        let b1 = bs.drop_last(); assert(moves(b1, v, a, d)) by { assert forall|k: int| 0 <= k < b1.len() implies (#[trigger] b1[k]).id == v[a + k].id && b1[k].document_position == v[a + k].document_position + d by { assert(bs[k] == b1[k]); } }
        put_moves(o, b1, v, a, d); let n1 = put_all(o, b1); let w1 = v.take(a + b1.len()); let l = bs[bs.len() - 1]; let j = a + bs.len() - 1;
        assert(l.id == v[j].id);
        assert forall|k: int| a <= k < w.len() implies n.contains_key((#[trigger] w[k]).id) && n[w[k].id] == w[k].document_position + d by { if k < j { assert(w1[k] == w[k]); assert(v[k].id != v[j].id); } }
        assert forall|x: u64| (forall|k: int| a <= k < w.len() ==> (#[trigger] w[k]).id != x) implies (#[trigger] n.contains_key(x) == o.contains_key(x)) && n[x] == o[x] by {
            assert(w[j] == v[j]); assert(w[j].id != x); assert forall|k: int| a <= k < w1.len() implies (#[trigger] w1[k]).id != x by { assert(w[k] == w1[k]); } assert(n1.contains_key(x) == o.contains_key(x));
        }
    }
}
pub open spec fn tame(bs: Seq<Block>) -> bool { forall|i: int| 0 <= i < bs.len() ==> -0x1000_0000_0000_0000 <= (#[trigger] bs[i]).document_position <= 0x1000_0000_0000_0000 }
pub open spec fn recorded(o: Store, bs: Seq<Block>) -> bool { forall|i: int| 0 <= i < bs.len() ==> o.positions@.contains_key((#[trigger] bs[i]).id) && o.positions@[bs[i].id] == bs[i].document_position }
//@ fn crates/document_editing/src/use_cases/delete_text_uc.rs execute_delete
//@ from let mut updated_block = $x;
//@ to uow.update_document(&updated_doc)?;
//@ rename shrink_one
//@ yields Ok(())
//@ sig (uow: &mut Store, blocks: Vec<Block>, start_block: Block, start_block_idx: usize, delete_len: i64, document: Document) -> Result<()>
requires
    distinct(blocks@), tame(blocks@), start_block_idx < blocks@.len(), start_block == blocks@[start_block_idx as int], 0 <= delete_len <= 0x1000_0000_0000_0000, document == old(uow).doc@, 0 <= document.character_count, !old(uow).flow@ ==> recorded(*old(uow), blocks@),
ensures
    r is Ok ==> final(uow).doc@ == (Document { character_count: (document.character_count - delete_len) as i64, ..document }) && final(uow).order == old(uow).order && final(uow).indexed == old(uow).indexed && final(uow).styled == old(uow).styled,
    r is Ok && !old(uow).flow@ ==> moved_from(final(uow).positions@, old(uow).positions@, blocks@, start_block_idx + 1, -delete_len),
//@ ret r
//@ rwstmt updated_block.updated_at = $x; =>
//@ rwstmt ub.updated_at = $x; =>
//@ rwstmt updated_doc.updated_at = $x; =>
//@ rw common::database::rope_helpers::rope_positions_match_flow(&store) => uow.flows()
//@ rw &blocks[$a..] => std_tail(&blocks, $a)
//@ top
//raw let ghost o = *uow; let ghost a = start_block_idx + 1;
//@ loop 0 it
invariant
    0 <= delete_len <= 0x1000_0000_0000_0000, tame(blocks@), a <= blocks@.len(), it.seq().len() == blocks@.len() - a, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == blocks@[a + i],
    blocks_to_update@.len() == it.index@, moves(blocks_to_update@, blocks@, a, -delete_len),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == blocks@[a + it.index@]);
//@ loop 0 after
assert(!o.flow@ ==> uow.positions@ =~= o.positions@); put_moves(uow.positions@, blocks_to_update@, blocks@, a, -delete_len); assert(blocks@.take(a + blocks_to_update@.len()) =~= blocks@);
//@ end
pub open spec fn gone(o: Set<u64>, ids: Seq<u64>) -> Set<u64>
    decreases ids.len()
{ if ids.len() == 0 { o } else { gone(o, ids.drop_last()).remove(ids.last()) } }
pub open spec fn lost(o: Map<u64, i64>, ids: Seq<u64>) -> Map<u64, i64>
    decreases ids.len()
{ if ids.len() == 0 { o } else { lost(o, ids.drop_last()).remove(ids.last()) } }
pub proof fn gone_is(o: Set<u64>, m: Map<u64, i64>, ids: Seq<u64>, x: u64)
    ensures gone(o, ids).contains(x) <==> o.contains(x) && !ids.contains(x), lost(m, ids).contains_key(x) <==> m.contains_key(x) && !ids.contains(x), lost(m, ids).contains_key(x) ==> lost(m, ids)[x] == m[x],
    decreases ids.len(),
{
    if ids.len() > 0 {
        let d = ids.drop_last(); gone_is(o, m, d, x);
        if d.contains(x) { let i = d.index_of(x); assert(ids[i] == x); }
        if ids.last() == x { assert(ids[ids.len() - 1] == x); }
        if ids.contains(x) && ids.last() != x { let i = ids.index_of(x); assert(d[i] == x); }
    }
}
/// the paragraphs from s + 1 to e are gone, from the records, the text, the runs and the frame that held them
pub open spec fn merged(n: Store, o: Store, v: Seq<Block>, s: int, e: int, frame: u64) -> bool {
    let ids = ids_in(v, s + 1, e + 1);
    &&& forall|x: u64| #[trigger] n.indexed@.contains(x) <==> o.indexed@.contains(x) && !ids.contains(x)
    &&& forall|x: u64| #[trigger] n.styled@.contains(x) <==> o.styled@.contains(x) && !ids.contains(x)
    &&& n.order@ == o.order@.insert(frame, without(o.order@[frame], ids))
}
/// those behind stand d further, those before where they stood, those between nowhere
pub open spec fn restands(n: Map<u64, i64>, o: Map<u64, i64>, v: Seq<Block>, s: int, e: int, d: int) -> bool {
    &&& forall|k: int| e < k < v.len() ==> n.contains_key((#[trigger] v[k]).id) && n[v[k].id] == v[k].document_position + d
    &&& forall|k: int| s < k <= e ==> !n.contains_key((#[trigger] v[k]).id)
    &&& forall|k: int| 0 <= k <= s ==> n.contains_key((#[trigger] v[k]).id) && n[v[k].id] == v[k].document_position
}
//@ fn crates/document_editing/src/use_cases/delete_text_uc.rs execute_delete
//@ from let blocks_to_remove: Vec<EntityId> = $x;
//@ to uow.update_document(&updated_doc)?;
//@ rename shrink_many
//@ yields Ok(())
//@ sig (uow: &mut Store, blocks: Vec<Block>, block_to_cell_frame: CellFrames, frame_id: EntityId, start_block: Block, start_block_idx: usize, end_block_idx: usize, start_block_text: String, middle_block_texts: Vec<String>, start_offset: i64, end_offset: i64, delete_len: i64, document: Document) -> Result<()>
requires
    distinct(blocks@), tame(blocks@), start_block_idx < end_block_idx < blocks@.len() <= i64::MAX, start_block == blocks@[start_block_idx as int], 0 <= delete_len <= 0x1000_0000_0000_0000, document == old(uow).doc@, recorded(*old(uow), blocks@),
    0 <= document.character_count <= 0x1000_0000_0000_0000, 0 <= document.block_count, 0 <= start_offset <= start_block_text@.len() <= 0x1000_0000_0000_0000, 0 <= end_offset <= 0x1000_0000_0000_0000, 0 <= total(middle_block_texts@) <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> merged(*final(uow), *old(uow), blocks@, start_block_idx as int, end_block_idx as int, if block_to_cell_frame@.contains_key(start_block.id) { block_to_cell_frame@[start_block.id] } else { frame_id }),
    r is Ok ==> final(uow).doc@ == (Document { character_count: (document.character_count - (start_block_text@.len() - start_offset + total(middle_block_texts@) + end_offset)) as i64, block_count: (document.block_count - (end_block_idx - start_block_idx)) as i64 }),
    r is Ok && !old(uow).flow@ ==> restands(final(uow).positions@, old(uow).positions@, blocks@, start_block_idx as int, end_block_idx as int, -delete_len),
//@ ret r
//@ rw blocks[$a..=$b].iter().map(|b| b.id).collect() => std_ids(&blocks, $a, $b)
//@ rwstmt drop_block_runs_and_images(uow.as_ref(), $x); => uow.unstyle($x);
//@ rwstmt common::database::rope_helpers::rope_remove_block(&uow.store(), $x); => uow.unindex($x);
//@ rw block_to_cell_frame.get(&$a).copied().unwrap_or($b) => block_to_cell_frame.or($a, $b)
//@ rw uow.get_frame($a)?.ok_or_else($b)? => uow.the_frame($a)?
//@ rw frame.clone() => std_clone_frame(&frame)
//@ rwstmt updated_frame.child_order.retain(|id| !blocks_to_remove.contains(&(*id as EntityId))); => std_retain_not(&mut updated_frame.child_order, &blocks_to_remove);
//@ rwstmt updated_frame.updated_at = $x; =>
//@ rwstmt ub.updated_at = $x; =>
//@ rwstmt updated_doc.updated_at = $x; =>
//@ rw start_block_text.chars().count() => std_char_count(&start_block_text)
//@ rw middle_block_texts.iter().map(|t| t.chars().count() as i64).sum() => std_total(&middle_block_texts)
//@ rw common::database::rope_helpers::rope_positions_match_flow(&store) => uow.flows()
//@ rw &blocks[$a..] => std_tail(&blocks, $a)
//@ top
//raw let ghost o = *uow; let ghost a = end_block_idx + 1; let ghost ids = ids_in(blocks@, start_block_idx + 1, end_block_idx + 1); let ghost v = blocks@;
//@ loop 0 it
invariant
    blocks_to_remove@ == ids, it.seq().len() == ids.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == ids[i],
    *uow == (Store { positions: Ghost(lost(o.positions@, ids.take(it.index@ as int))), indexed: Ghost(gone(o.indexed@, ids.take(it.index@ as int))), styled: Ghost(gone(o.styled@, ids.take(it.index@ as int))), ..o }),
//@ loop 0 bottom
assert(*it.seq()[it.index@ as int] == ids[it.index@ as int]); assert(ids.take(it.index@ + 1).drop_last() =~= ids.take(it.index@ as int));
//@ loop 0 after
//raw let ghost mid = *uow; proof { assert(ids.take(ids.len() as int) =~= ids); }
//@ loop 1 it
invariant
    0 <= delete_len <= 0x1000_0000_0000_0000, tame(blocks@), a <= blocks@.len(), it.seq().len() == blocks@.len() - a, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == blocks@[a + i],
    blocks_to_update@.len() == it.index@, moves(blocks_to_update@, blocks@, a, -delete_len),
//@ loop 1 top
assert(*it.seq()[it.index@ as int] == blocks@[a + it.index@]);
//@ loop 1 after
put_moves(mid.positions@, blocks_to_update@, blocks@, a, -delete_len); assert(blocks@.take(a + blocks_to_update@.len()) =~= blocks@);
//@ ahead Ok(())
assert forall|x: u64| #[trigger] uow.indexed@.contains(x) <==> o.indexed@.contains(x) && !ids.contains(x) by { gone_is(o.indexed@, o.positions@, ids, x); }
assert forall|x: u64| #[trigger] uow.styled@.contains(x) <==> o.styled@.contains(x) && !ids.contains(x) by { gone_is(o.styled@, o.positions@, ids, x); }
if !o.flow@ { after_merge(uow.positions@, mid.positions@, o, v, start_block_idx as int, end_block_idx as int, -delete_len); }
//@ end
pub proof fn after_merge(n: Map<u64, i64>, m: Map<u64, i64>, o: Store, v: Seq<Block>, s: int, e: int, d: int)
    requires distinct(v), recorded(o, v), 0 <= s < e < v.len(), m == lost(o.positions@, ids_in(v, s + 1, e + 1)), moved_from(n, m, v, e + 1, d),
    ensures restands(n, o.positions@, v, s, e, d),
{
    let ids = ids_in(v, s + 1, e + 1);
    assert forall|k: int| s < k <= e implies !n.contains_key((#[trigger] v[k]).id) by { gone_is(Set::empty(), o.positions@, ids, v[k].id); assert(ids[k - s - 1] == v[k].id); assert(ids.contains(v[k].id)); assert(n.contains_key(v[k].id) == m.contains_key(v[k].id)); }
    assert forall|k: int| 0 <= k <= s implies n.contains_key((#[trigger] v[k]).id) && n[v[k].id] == v[k].document_position by {
        let x = v[k].id; gone_is(Set::empty(), o.positions@, ids, x); if ids.contains(x) { let i = ids.index_of(x); assert(v[s + 1 + i].id == x); } assert(o.positions@.contains_key(x)); assert(n.contains_key(x) == m.contains_key(x));
    }
}
// ---- breaking a paragraph in two
pub open spec fn first_at(s: Seq<i64>, e: i64, i: int) -> bool { 0 <= i < s.len() && s[i] == e && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != e }
#[verifier::external_body] // TRUSTED: iter().position(|&e| e > 0 && e as u64 == id): the first entry that names the paragraph; a Vec holds at most isize::MAX elements
pub fn std_entry_of(v: &Vec<i64>, id: u64) -> (r: Option<usize>)
    ensures v@.len() <= isize::MAX, match r { Some(i) => id > 0 && id <= i64::MAX && first_at(v@, id as i64, i as int), None => id == 0 || id > i64::MAX || !v@.contains(id as i64) },
{ v.iter().position(|&e| e > 0 && e as u64 == id) }
/// the new paragraph stands right behind the old one among the frame's children (at the end if that is not one of them)
pub open spec fn next_to(n: Seq<i64>, o: Seq<i64>, old_: u64, new_: i64) -> bool {
    exists|i: int| 0 <= i <= o.len() && #[trigger] o.insert(i, new_) == n && (if 0 < old_ <= i64::MAX && o.contains(old_ as i64) { i > 0 && first_at(o, old_ as i64, i - 1) } else { i == o.len() })
}
//@ fn crates/document_editing/src/use_cases/insert_block_uc.rs execute_insert_block
//@ from let frame = $x;
//@ to uow.update_document(&updated_doc)?;
//@ rename grow_one
//@ yields Ok(())
//@ sig (uow: &mut Store, blocks: Vec<Block>, block_idx: usize, current_block: Block, created_block: Block, owner_frame_id: EntityId, document: Document) -> Result<()>
requires distinct(blocks@), tame(blocks@), block_idx < blocks@.len() <= i64::MAX, document == old(uow).doc@, document.block_count < i64::MAX,
ensures
    r is Ok ==> final(uow).order@.dom() == old(uow).order@.insert(owner_frame_id, Seq::empty()).dom() && (forall|f: u64| f != owner_frame_id ==> #[trigger] final(uow).order@[f] == old(uow).order@[f]) && next_to(final(uow).order@[owner_frame_id], old(uow).order@[owner_frame_id], current_block.id, created_block.id as i64),
    r is Ok ==> final(uow).doc@ == (Document { block_count: (document.block_count + 1) as i64, ..document }),
    r is Ok ==> moved_from(final(uow).positions@, old(uow).positions@, blocks@, block_idx + 1, 1),
//@ ret r
//@ rw uow.get_frame($a)?.ok_or_else($b)? => uow.the_frame($a)?
//@ rw uow.get_frame_relationship($a, $b) => uow.blocks_of($a)
//@ rw frame.clone() => std_clone_frame(&frame)
//@ rw updated_frame.child_order.iter().position(|&e| e > 0 && e as EntityId == current_block.id).map(|i| i + 1).unwrap_or($d) => { match std_entry_of(&updated_frame.child_order, current_block.id) { Some(i) => i + 1, None => $d } }
//@ rwstmt updated_frame.updated_at = $x; =>
//@ rwstmt ub.updated_at = $x; =>
//@ rwstmt updated_doc.updated_at = $x; =>
//@ rw &blocks[$a..] => std_tail(&blocks, $a)
//@ top
//raw let ghost o = *uow; let ghost a = block_idx + 1;
//@ ahead let mut blocks_to_update: Vec<Block> = $x;
//raw let ghost mid = *uow; proof { let s = o.order@[owner_frame_id]; let n = mid.order@[owner_frame_id]; assert(s.insert(co_idx as int, created_block.id as i64) == n); assert(next_to(n, s, current_block.id, created_block.id as i64)); assert(mid.order@.dom() =~= o.order@.insert(owner_frame_id, Seq::empty()).dom()); }
//@ loop 0 it
invariant
    tame(blocks@), a <= blocks@.len(), it.seq().len() == blocks@.len() - a, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == blocks@[a + i],
    blocks_to_update@.len() == it.index@, moves(blocks_to_update@, blocks@, a, 1),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == blocks@[a + it.index@]);
//@ loop 0 after
put_moves(mid.positions@, blocks_to_update@, blocks@, a, 1); assert(blocks@.take(a + blocks_to_update@.len()) =~= blocks@);
//@ end
// ---- end to end
/// paragraphs of these lengths, one after the other with one break between
pub open spec fn end_to_end(v: Seq<Block>, ls: Seq<int>) -> bool { v.len() == ls.len() && forall|k: int| 0 <= k < v.len() - 1 ==> (#[trigger] v[k + 1]).document_position == v[k].document_position + ls[k] + 1 }
/// the records of the paragraphs as they stand afterwards
pub open spec fn as_now(n: Map<u64, i64>, v: Seq<Block>) -> Seq<Block> { Seq::new(v.len(), |k: int| Block { id: v[k].id, document_position: n[v[k].id] }) }
/// deleting inside one paragraph keeps the paragraphs end to end
pub proof fn shrunk_end_to_end(n: Map<u64, i64>, o: Store, v: Seq<Block>, ls: Seq<int>, s: int, d: int)
    requires end_to_end(v, ls), recorded(o, v), distinct(v), 0 <= s < v.len(), moved_from(n, o.positions@, v, s + 1, -d),
    ensures end_to_end(as_now(n, v), ls.update(s, ls[s] - d)),
{
    let w = as_now(n, v);
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] w[k]).document_position == v[k].document_position - (if k > s { d } else { 0 }) by {
        let x = v[k].id; assert(o.positions@.contains_key(x)); if k <= s { assert(forall|j: int| s + 1 <= j < v.len() ==> (#[trigger] v[j]).id != x); assert(n.contains_key(x) == o.positions@.contains_key(x)); }
    }
    assert forall|k: int| 0 <= k < w.len() - 1 implies (#[trigger] w[k + 1]).document_position == w[k].document_position + ls.update(s, ls[s] - d)[k] + 1 by { assert(w[k].document_position == v[k].document_position - (if k > s { d } else { 0 })); assert(v[k + 1].document_position == v[k].document_position + ls[k] + 1); }
}
/// deleting from character i of paragraph s to character j of paragraph e keeps the paragraphs end to end
pub proof fn merged_end_to_end(n: Map<u64, i64>, o: Store, v: Seq<Block>, ls: Seq<int>, s: int, e: int, i: int, j: int)
    requires end_to_end(v, ls), recorded(o, v), 0 <= s < e < v.len(), restands(n, o.positions@, v, s, e, -(v[e].document_position + j - v[s].document_position - i)),
    ensures end_to_end(as_now(n, v.take(s + 1) + v.skip(e + 1)), ls.take(s) + seq![i + ls[e] - j] + ls.skip(e + 1)),
{
    let u = v.take(s + 1) + v.skip(e + 1); let w = as_now(n, u); let m = ls.take(s) + seq![i + ls[e] - j] + ls.skip(e + 1); let d = v[e].document_position + j - v[s].document_position - i;
    assert forall|k: int| 0 <= k < u.len() implies (#[trigger] w[k]).document_position == (if k <= s { v[k].document_position as int } else { v[k - s + e].document_position - d }) by { if k <= s { assert(u[k] == v[k]); } else { assert(u[k] == v[k - s + e]); } }
    assert forall|k: int| 0 <= k < w.len() - 1 implies (#[trigger] w[k + 1]).document_position == w[k].document_position + m[k] + 1 by {
        assert(w[k].document_position == (if k <= s { v[k].document_position as int } else { v[k - s + e].document_position - d }));
        if k < s { assert(v[k + 1].document_position == v[k].document_position + ls[k] + 1); } else { let q = k - s + e; assert(v[q + 1].document_position == v[q].document_position + ls[q] + 1); if k > s { assert(m[k] == ls[q]); } }
    }
}
/// breaking paragraph s at character i, the new one standing where execute_insert_block puts it, keeps the paragraphs end to end
pub proof fn broken_end_to_end(n: Map<u64, i64>, o: Store, v: Seq<Block>, ls: Seq<int>, s: int, i: int, b: Block)
    requires end_to_end(v, ls), recorded(o, v), distinct(v), 0 <= s < v.len(), moved_from(n, o.positions@, v, s + 1, 1), b.document_position == v[s].document_position + i + 1, forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).id != b.id, n[b.id] == b.document_position,
    ensures end_to_end(as_now(n, v.insert(s + 1, b)), ls.update(s, i).insert(s + 1, ls[s] - i)),
{
    let u = v.insert(s + 1, b); let w = as_now(n, u); let m = ls.update(s, i).insert(s + 1, ls[s] - i);
    assert forall|k: int| 0 <= k < u.len() implies (#[trigger] w[k]).document_position == (if k <= s { v[k].document_position as int } else if k == s + 1 { b.document_position as int } else { v[k - 1].document_position + 1 }) by {
        if k <= s { let x = v[k].id; assert(o.positions@.contains_key(x)); assert(forall|j: int| s + 1 <= j < v.len() ==> (#[trigger] v[j]).id != x); assert(n.contains_key(x) == o.positions@.contains_key(x)); assert(u[k] == v[k]); } else if k > s + 1 { assert(u[k] == v[k - 1]); }
    }
    assert forall|k: int| 0 <= k < w.len() - 1 implies (#[trigger] w[k + 1]).document_position == w[k].document_position + m[k] + 1 by {
        assert(w[k].document_position == (if k <= s { v[k].document_position as int } else if k == s + 1 { b.document_position as int } else { v[k - 1].document_position + 1 }));
        if k < s { assert(v[k + 1].document_position == v[k].document_position + ls[k] + 1); } else if k > s { let q = k - 1; assert(v[q + 1].document_position == v[q].document_position + ls[q] + 1); }
    }
}
}
fn main() {}
