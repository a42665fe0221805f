// Which paragraph a position lies in, as the editing commands find it; how table cells lie behind each other.
use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the fields of Block used here
/// TRUSTED: what the lookups read of the store
pub struct Store {
    pub lens: Ghost<Map<u64, nat>>, // the number of characters of every paragraph
    pub flat: Ghost<bool>, // every paragraph lies in the text, and nothing else does
    pub paras: Ghost<Seq<u64>>, // the paragraphs as they follow one another in the text
    pub records: Ghost<Map<u64, Block>>,
    pub members: Ghost<Map<u64, Seq<u64>>>,
}
pub open spec fn len(s: Store, id: u64) -> int { s.lens@[id] as int }
pub open spec fn start(s: Store, ids: Seq<u64>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { start(s, ids, k - 1) + len(s, ids[k - 1]) + 1 } }
pub open spec fn belongs(s: Store, ids: Seq<u64>, p: int, i: int) -> bool { 0 <= i < ids.len() && start(s, ids, i) <= p <= start(s, ids, i) + len(s, ids[i]) }
pub open spec fn clamped(s: Store, p: int) -> int { let t = start(s, s.paras@, s.paras@.len() as int) - 1; if p < 0 { 0 } else if p > t { t } else { p } }
pub open spec fn small(s: Store) -> bool { forall|id: u64| #[trigger] len(s, id) <= 0x1000_0000_0000_0000 }
#[verifier::external_body] // TRUSTED: the number of characters of a paragraph (block_content_via_store in rope.vrs)
pub fn block_char_length(b: &Block, s: &Store) -> (r: i64) ensures r == len(*s, b.id) { unimplemented!() }
#[verifier::external_body] // proved for find_block_at_char_position in rope_ops.vrs
pub fn find_block_at_char_position(s: &Store, position: i64) -> (r: Option<(EntityId, i64, i64)>)
    ensures
        r is Some <==> s.flat@ && s.paras@.len() > 0,
        r is Some ==> exists|i: int| #[trigger] belongs(*s, s.paras@, clamped(*s, position as int), i) && s.paras@[i] == r->Some_0.0 && r->Some_0.2 == start(*s, s.paras@, i) && r->Some_0.1 == clamped(*s, position as int) - start(*s, s.paras@, i),
{ unimplemented!() }
#[verifier::external_body] // TRUSTED: iter().enumerate().find(|(_, b)| b.id == id): the first with that id, and its index
pub fn std_find_id<'a>(v: &'a [Block], id: u64) -> (r: Option<(usize, &'a Block)>)
    ensures match r { Some((i, b)) => i < v@.len() && *b == v@[i as int] && b.id == id && forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).id != id, None => forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).id != id },
{ v.iter().enumerate().find(|(_, b)| b.id == id) }
pub open spec fn covers(s: Store, b: Block, p: int) -> bool { b.document_position <= p <= b.document_position + len(s, b.id) }
pub open spec fn listed(v: Seq<Block>, id: u64) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == id }
/// the text knows the paragraph, and so does the list
pub open spec fn by_text(v: Seq<Block>, s: Store, p: int, i: int, r: (Block, usize, i64)) -> bool {
    belongs(s, s.paras@, clamped(s, p), i) && s.paras@[i] == r.0.id && r.1 < v.len() && v[r.1 as int].id == r.0.id && r.0.document_position == start(s, s.paras@, i) && r.2 == clamped(s, p) - start(s, s.paras@, i)
}
pub open spec fn text_found(v: Seq<Block>, s: Store, p: int, r: (Block, usize, i64)) -> bool { exists|i: int| #[trigger] by_text(v, s, p, i, r) }
/// the first paragraph of the list whose characters, or the place behind them, hold p; the end of the last if none does
pub open spec fn by_list(v: Seq<Block>, s: Store, p: int, r: (Block, usize, i64)) -> bool {
    &&& r.1 < v.len() && r.0 == v[r.1 as int]
    &&& (covers(s, r.0, p) && r.2 == p - r.0.document_position && forall|j: int| 0 <= j < r.1 ==> !covers(s, #[trigger] v[j], p))
        || (r.1 == v.len() - 1 && r.2 == len(s, r.0.id) && forall|j: int| 0 <= j < v.len() ==> !covers(s, #[trigger] v[j], p))
}
pub open spec fn known(v: Seq<Block>, s: Store, p: int) -> bool { s.flat@ && s.paras@.len() > 0 && forall|i: int| #[trigger] belongs(s, s.paras@, clamped(s, p), i) ==> listed(v, s.paras@[i]) }
pub open spec fn known_some(v: Seq<Block>, s: Store, p: int) -> bool { s.flat@ && s.paras@.len() > 0 && exists|i: int| #[trigger] belongs(s, s.paras@, clamped(s, p), i) && listed(v, s.paras@[i]) }
//@ fn crates/document_editing/src/use_cases/editing_helpers.rs find_block_at_position
requires small(*store), forall|i: int| 0 <= i < blocks@.len() ==> -0x1000_0000_0000_0000 <= (#[trigger] blocks@[i]).document_position <= 0x1000_0000_0000_0000, -0x1000_0000_0000_0000 <= position <= 0x1000_0000_0000_0000,
ensures
    known(blocks@, *store, position as int) && r is Ok ==> text_found(blocks@, *store, position as int, r->Ok_0),
    !known_some(blocks@, *store, position as int) && r is Ok ==> by_list(blocks@, *store, position as int, r->Ok_0),
    r is Err ==> blocks@.len() == 0,
//@ ret r
//@ rw blocks.iter().enumerate().find(|(_, b)| b.id == block_id) => std_find_id(blocks, block_id)
//@ rw Err(anyhow!($x)) => Err(Error {})
//@ ahead return Ok((corrected, i, offset));
let k = choose|k: int| #[trigger] belongs(*store, store.paras@, clamped(*store, position as int), k) && store.paras@[k] == block_id && block_char_start == start(*store, store.paras@, k) && offset == clamped(*store, position as int) - start(*store, store.paras@, k);
assert(by_text(blocks@, *store, position as int, k, (corrected, i, offset)));
assert(text_found(blocks@, *store, position as int, (corrected, i, offset)));
//@ loop 0
invariant
    small(*store), !known(blocks@, *store, position as int), forall|i: int| 0 <= i < blocks@.len() ==> -0x1000_0000_0000_0000 <= (#[trigger] blocks@[i]).document_position <= 0x1000_0000_0000_0000, -0x1000_0000_0000_0000 <= position <= 0x1000_0000_0000_0000,
    forall|j: int| 0 <= j < i ==> !covers(*store, #[trigger] blocks@[j], position as int),
//@ end
/// TRUSTED: the unit of work: a view on the store
pub struct Uow { pub s: Store }
impl Uow {
    #[verifier::external_body]
    pub fn store(&self) -> (r: &Store) ensures *r == self.s { unimplemented!() }
    #[verifier::external_body]
    pub fn get_block(&self, id: &EntityId) -> (r: Result<Option<Block>>)
        ensures r is Ok ==> ((r->Ok_0 is Some <==> self.s.records@.contains_key(*id)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0 == self.s.records@[*id])),
    { unimplemented!() }
}
pub open spec fn stored(s: Store, ids: Seq<u64>) -> bool { forall|i: int| 0 <= i < ids.len() ==> s.records@.contains_key(#[trigger] ids[i]) && s.records@[ids[i]].id == ids[i] }
pub open spec fn roomy(s: Store, ids: Seq<u64>) -> bool { forall|i: int| 0 <= i <= ids.len() ==> 0 <= #[trigger] start(s, ids, i) <= 0x1000_0000_0000_0000 }
/// the paragraph of the list that holds position p and where it starts, both counted from the characters; the last if p lies behind
pub open spec fn in_order(s: Store, ids: Seq<u64>, p: int, r: (Block, usize, i64)) -> bool {
    &&& r.1 < ids.len() && r.0 == s.records@[ids[r.1 as int]] && r.2 == start(s, ids, r.1 as int)
    &&& belongs(s, ids, p, r.1 as int) || (r.1 == ids.len() - 1 && (p < 0 || p >= start(s, ids, ids.len() as int)))
}
pub proof fn rising(s: Store, ids: Seq<u64>, i: int, j: int)
    requires 0 <= i <= j
    ensures start(s, ids, i) <= start(s, ids, j)
    decreases j - i
{ if i < j { rising(s, ids, i, j - 1); } }
pub fn present(b: Option<Block>) -> (r: Result<Block>) ensures match b { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { match b { Some(x) => Ok(x), None => Err(Error {}) } }
#[verifier::external_body] // TRUSTED: &v[..n]
pub fn std_first(v: &[EntityId], n: usize) -> (r: &[EntityId]) requires n <= v@.len() ensures r@ == v@.subrange(0, n as int) { &v[..n] }
/// p lies behind the first i paragraphs, or before the text
pub open spec fn p_before(s: Store, ids: Seq<u64>, p: int, i: int) -> bool { p < 0 || p >= start(s, ids, i) }
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs find_block_at_position_sequential
requires stored(uow.s, ordered_block_ids@), roomy(uow.s, ordered_block_ids@), small(uow.s),
ensures
    r is Ok ==> in_order(uow.s, ordered_block_ids@, position as int, r->Ok_0),
//@ ret r
//@ rwtype &dyn InsertTextUnitOfWorkTrait => &Uow
//@ rw uow.get_block(&block_id)?.ok_or_else(|| anyhow!($x))? => present(uow.get_block(&block_id)?)?
//@ rw uow.get_block(&ordered_block_ids[last_idx])?.ok_or_else(|| anyhow!($x))? => present(uow.get_block(&ordered_block_ids[last_idx])?)?
//@ rw Err(anyhow!($x)) => Err(Error {})
//@ rw block_char_length(&block, &store) => block_char_length(&block, store)
//@ rw block_char_length(&b, &store) => block_char_length(&b, store)
//@ rw &ordered_block_ids[..last_idx] => std_first(ordered_block_ids, last_idx)
//@ loop 0
invariant
    stored(uow.s, ordered_block_ids@), roomy(uow.s, ordered_block_ids@), small(uow.s), *store == uow.s,
    running_pos == start(uow.s, ordered_block_ids@, idx as int),
    0 <= idx <= ordered_block_ids@.len(), p_before(uow.s, ordered_block_ids@, position as int, idx as int),
//@ loop 0 bottom
assert(start(uow.s, ordered_block_ids@, idx as int + 1) == running_pos);
//@ loop 1 it
invariant
    stored(uow.s, ordered_block_ids@), roomy(uow.s, ordered_block_ids@), small(uow.s), *store == uow.s, last_idx < ordered_block_ids@.len(),
    0 <= it.index@ <= last_idx,
    pos == start(uow.s, ordered_block_ids@, it.index@ as int), it.seq().len() == last_idx, forall|i: int| 0 <= i < last_idx ==> *(#[trigger] it.seq()[i]) == ordered_block_ids@[i],
//@ loop 1 top
assert(*it.seq()[it.index@ as int] == ordered_block_ids@[it.index@ as int]); assert(start(uow.s, ordered_block_ids@, it.index@ as int + 1) == pos + len(uow.s, *it.seq()[it.index@ as int]) + 1);
//@ end
//@ fn crates/document_editing/src/use_cases/insert_formatted_text_uc.rs find_block_at_position_sequential
//@ rename find_block_at_position_sequential_formatted
requires stored(uow.s, ordered_block_ids@), roomy(uow.s, ordered_block_ids@), small(uow.s),
ensures
    r is Ok ==> in_order(uow.s, ordered_block_ids@, position as int, r->Ok_0),
//@ ret r
//@ rwtype &dyn InsertFormattedTextUnitOfWorkTrait => &Uow
//@ rw uow.get_block(&block_id)?.ok_or_else(|| anyhow!($x))? => present(uow.get_block(&block_id)?)?
//@ rw uow.get_block(&ordered_block_ids[last_idx])?.ok_or_else(|| anyhow!($x))? => present(uow.get_block(&ordered_block_ids[last_idx])?)?
//@ rw Err(anyhow!($x)) => Err(Error {})
//@ rw block_char_length(&block, &store) => block_char_length(&block, store)
//@ rw block_char_length(&b, &store) => block_char_length(&b, store)
//@ rw &ordered_block_ids[..last_idx] => std_first(ordered_block_ids, last_idx)
//@ loop 0
invariant
    stored(uow.s, ordered_block_ids@), roomy(uow.s, ordered_block_ids@), small(uow.s), *store == uow.s,
    running_pos == start(uow.s, ordered_block_ids@, idx as int),
    0 <= idx <= ordered_block_ids@.len(), p_before(uow.s, ordered_block_ids@, position as int, idx as int),
//@ loop 0 bottom
assert(start(uow.s, ordered_block_ids@, idx as int + 1) == running_pos);
//@ loop 1 it
invariant
    stored(uow.s, ordered_block_ids@), roomy(uow.s, ordered_block_ids@), small(uow.s), *store == uow.s, last_idx < ordered_block_ids@.len(),
    0 <= it.index@ <= last_idx,
    pos == start(uow.s, ordered_block_ids@, it.index@ as int), it.seq().len() == last_idx, forall|i: int| 0 <= i < last_idx ==> *(#[trigger] it.seq()[i]) == ordered_block_ids@[i],
//@ loop 1 top
assert(*it.seq()[it.index@ as int] == ordered_block_ids@[it.index@ as int]); assert(start(uow.s, ordered_block_ids@, it.index@ as int + 1) == pos + len(uow.s, *it.seq()[it.index@ as int]) + 1);
//@ end
pub struct TableCell { pub id: u64, pub cell_frame: Option<u64> } // TRUSTED: the fields of TableCell used here
pub enum FrameRelationshipField { Blocks }
pub open spec fn fetched(s: Store, ids: Seq<u64>) -> Seq<Block> { Seq::new(ids.len(), |i: int| s.records@[ids[i]]) }
pub open spec fn ids_of(v: Seq<Block>) -> Seq<u64> { Seq::new(v.len(), |i: int| v[i].id) }
impl Uow {
    #[verifier::external_body] // TRUSTED: the paragraphs a frame owns
    pub fn cbr_get_frame_relationship(&self, id: &EntityId, field: &FrameRelationshipField) -> (r: Result<Vec<EntityId>>)
        ensures r is Ok && self.s.members@.contains_key(*id) ==> r->Ok_0@ == self.s.members@[*id],
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the records of the paragraphs asked for, in that order
    pub fn cbr_get_block_multi(&self, ids: &[EntityId]) -> (r: Result<Vec<Option<Block>>>)
        ensures r is Ok && stored(self.s, ids@) ==> r->Ok_0@ =~= Seq::new(ids@.len(), |i: int| Some(self.s.records@[ids@[i]])),
    { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: into_iter().flatten(): what is there, in order
pub fn std_flatten(v: Vec<Option<Block>>) -> (r: Vec<Block>)
    ensures (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Some) ==> r@ == Seq::new(v@.len(), |i: int| v@[i]->Some_0),
{ v.into_iter().flatten().collect() }
#[verifier::external_body] // TRUSTED: sort_by_key(|b| b.document_position)
pub fn std_sort_by_position(v: &mut Vec<Block>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> (#[trigger] final(v)@[i]).document_position <= (#[trigger] final(v)@[j]).document_position,
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
{ v.sort_by_key(|b| b.document_position) }
pub open spec fn taken(s: Store, ids: Seq<u64>) -> int { start(s, ids, ids.len() as int) }
/// how many positions the paragraphs of the first n frames take up: their characters and a separator each
pub open spec fn extents(s: Store, frames: Seq<u64>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { extents(s, frames, n - 1) + taken(s, s.members@[frames[n - 1]]) } }
pub open spec fn owned(s: Store, frames: Seq<u64>) -> bool { forall|i: int| 0 <= i < frames.len() ==> s.members@.contains_key(#[trigger] frames[i]) && stored(s, s.members@[frames[i]]) && roomy(s, s.members@[frames[i]]) }
pub open spec fn roomy_frames(s: Store, frames: Seq<u64>) -> bool { forall|i: int| 0 <= i <= frames.len() ==> 0 <= #[trigger] extents(s, frames, i) <= 0x1000_0000_0000_0000 }
//@ fn crates/document_editing/src/use_cases/editing_helpers.rs compute_table_extent
requires owned(uow.s, cell_frame_ids@), roomy_frames(uow.s, cell_frame_ids@), small(uow.s), *store == uow.s,
ensures
    r is Ok ==> r->Ok_0 == extents(uow.s, cell_frame_ids@, cell_frame_ids@.len() as int),
//@ ret r
//@ rwtype &dyn CellBlockReader => &Uow
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ loop 0 fr
invariant
    owned(uow.s, cell_frame_ids@), roomy_frames(uow.s, cell_frame_ids@), small(uow.s), *store == uow.s,
    fr.seq().len() == cell_frame_ids@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == cell_frame_ids@[i],
    extent == extents(uow.s, cell_frame_ids@, fr.index@ as int),
//@ loop 0 top
assert(*fr.seq()[fr.index@ as int] == cell_frame_ids@[fr.index@ as int]);
assert(extents(uow.s, cell_frame_ids@, fr.index@ as int + 1) == extent + taken(uow.s, uow.s.members@[*cf_id]));
//@ loop 1 before
assert(block_ids@ == uow.s.members@[*cf_id]);
//@ loop 1 it
invariant
    owned(uow.s, cell_frame_ids@), roomy_frames(uow.s, cell_frame_ids@), small(uow.s), *store == uow.s,
    uow.s.members@.contains_key(*cf_id), stored(uow.s, uow.s.members@[*cf_id]), roomy(uow.s, uow.s.members@[*cf_id]),
    it.seq() =~= fetched(uow.s, uow.s.members@[*cf_id]), 0 <= fr.index@ < cell_frame_ids@.len(), *cf_id == cell_frame_ids@[fr.index@ as int],
    extent == extents(uow.s, cell_frame_ids@, fr.index@ as int) + start(uow.s, uow.s.members@[*cf_id], it.index@ as int),
//@ loop 1 top
assert(block == uow.s.records@[uow.s.members@[*cf_id][it.index@ as int]]);
assert(start(uow.s, uow.s.members@[*cf_id], it.index@ as int + 1) == start(uow.s, uow.s.members@[*cf_id], it.index@ as int) + len(uow.s, block.id) + 1);
assert(extents(uow.s, cell_frame_ids@, fr.index@ as int) <= 0x1000_0000_0000_0000);
//@ end
/// paragraph b of frame f comes before paragraph y of frame x
pub open spec fn seen(s: Store, frames: Seq<u64>, f: int, b: int, x: int, y: int) -> bool { 0 <= f < frames.len() && 0 <= b < s.members@[frames[f]].len() && (f < x || (f == x && b < y)) }
pub open spec fn pos_at(s: Store, frames: Seq<u64>, f: int, b: int) -> int { s.records@[s.members@[frames[f]][b]].document_position as int }
pub open spec fn attained(s: Store, frames: Seq<u64>, x: int, y: int, m: int) -> bool { exists|f: int, b: int| #[trigger] seen(s, frames, f, b, x, y) && pos_at(s, frames, f, b) == m }
/// the lowest position of the paragraphs before paragraph y of frame x
pub open spec fn lowest(s: Store, frames: Seq<u64>, x: int, y: int, o: Option<i64>) -> bool {
    match o {
        None => forall|f: int, b: int| !#[trigger] seen(s, frames, f, b, x, y),
        Some(m) => attained(s, frames, x, y, m as int) && forall|f: int, b: int| #[trigger] seen(s, frames, f, b, x, y) ==> m <= pos_at(s, frames, f, b),
    }
}
pub proof fn lower(s: Store, frames: Seq<u64>, x: int, y: int, o: Option<i64>, q: Option<i64>)
    requires lowest(s, frames, x, y, o), 0 <= x < frames.len(), 0 <= y < s.members@[frames[x]].len(), q is Some, q->Some_0 == (match o { None => pos_at(s, frames, x, y), Some(m) => if pos_at(s, frames, x, y) < m { pos_at(s, frames, x, y) } else { m as int } }),
    ensures lowest(s, frames, x, y + 1, q),
{
    assert forall|f: int, b: int| #[trigger] seen(s, frames, f, b, x, y + 1) implies q->Some_0 <= pos_at(s, frames, f, b) by { if !seen(s, frames, f, b, x, y) { assert(f == x && b == y); } }
    if o is Some && q->Some_0 == o->Some_0 {
        let (f, b) = choose|f: int, b: int| #[trigger] seen(s, frames, f, b, x, y) && pos_at(s, frames, f, b) == o->Some_0;
        assert(seen(s, frames, f, b, x, y + 1));
    } else { assert(seen(s, frames, x, y, x, y + 1)); }
}
pub proof fn next_frame(s: Store, frames: Seq<u64>, x: int, o: Option<i64>)
    requires 0 <= x < frames.len(), lowest(s, frames, x, s.members@[frames[x]].len() as int, o),
    ensures lowest(s, frames, x + 1, 0, o),
{
    let n = s.members@[frames[x]].len() as int;
    assert forall|f: int, b: int| #[trigger] seen(s, frames, f, b, x + 1, 0) implies seen(s, frames, f, b, x, n) by {}
    if o is Some { let (f, b) = choose|f: int, b: int| #[trigger] seen(s, frames, f, b, x, n) && pos_at(s, frames, f, b) == o->Some_0; assert(seen(s, frames, f, b, x + 1, 0)); }
}
//@ fn crates/document_editing/src/use_cases/editing_helpers.rs compute_table_base_pos
requires owned(uow.s, cell_frame_ids@),
ensures
    r is Ok ==> lowest(uow.s, cell_frame_ids@, cell_frame_ids@.len() as int, 0, Some(r->Ok_0)) || (r->Ok_0 == 0 && lowest(uow.s, cell_frame_ids@, cell_frame_ids@.len() as int, 0, None)),
//@ ret r
//@ rwtype &dyn CellBlockReader => &Uow
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ loop 0 fr
invariant
    owned(uow.s, cell_frame_ids@),
    fr.seq().len() == cell_frame_ids@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == cell_frame_ids@[i],
    lowest(uow.s, cell_frame_ids@, fr.index@ as int, 0, base_pos),
//@ loop 0 top
assert(*fr.seq()[fr.index@ as int] == cell_frame_ids@[fr.index@ as int]);
//@ loop 1 before
assert(block_ids@ == uow.s.members@[*cf_id]);
//@ loop 1 it
invariant
    owned(uow.s, cell_frame_ids@),
    it.seq() =~= fetched(uow.s, uow.s.members@[*cf_id]), 0 <= fr.index@ < cell_frame_ids@.len(), *cf_id == cell_frame_ids@[fr.index@ as int],
    lowest(uow.s, cell_frame_ids@, fr.index@ as int, it.index@ as int, base_pos),
//@ loop 1 top
//raw let ghost pre = base_pos; proof { assert(block == uow.s.records@[uow.s.members@[*cf_id][it.index@ as int]]); }
//@ loop 1 bottom
lower(uow.s, cell_frame_ids@, fr.index@ as int, it.index@ as int, pre, base_pos);
//@ loop 0 bottom
next_frame(uow.s, cell_frame_ids@, fr.index@ as int, base_pos);
//@ end
/// the paragraphs of a cell
pub open spec fn inside(s: Store, c: TableCell) -> Seq<Block> { if c.cell_frame is Some { fetched(s, s.members@[c.cell_frame->Some_0]) } else { Seq::empty() } }
pub open spec fn rising_positions(v: Seq<Block>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> (#[trigger] v[i]).document_position <= (#[trigger] v[j]).document_position }
/// for each of the first n cells, its paragraphs as they follow one another
pub open spec fn in_turn(s: Store, cells: Seq<TableCell>, orders: Seq<Seq<Block>>, n: int) -> bool {
    orders.len() == n && forall|k: int| 0 <= k < n ==> rising_positions(#[trigger] orders[k]) && orders[k].to_multiset() == inside(s, cells[k]).to_multiset()
}
pub open spec fn joined(orders: Seq<Seq<Block>>) -> Seq<Block>
    decreases orders.len()
{ if orders.len() == 0 { Seq::empty() } else { joined(orders.drop_last()) + orders.last() } }
/// one behind the other from base, each taking up its characters and a separator
pub open spec fn placed(s: Store, v: Seq<Block>, base: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).document_position == base + start(s, ids_of(v), i) }
pub open spec fn row_major(s: Store, cells: Seq<TableCell>, v: Seq<Block>, base: int) -> bool {
    placed(s, v, base) && exists|orders: Seq<Seq<Block>>| #[trigger] in_turn(s, cells, orders, cells.len() as int) && ids_of(v) =~= ids_of(joined(orders))
}
pub open spec fn cells_owned(s: Store, cells: Seq<TableCell>) -> bool { forall|i: int| 0 <= i < cells.len() && (#[trigger] cells[i]).cell_frame is Some ==> s.members@.contains_key(cells[i].cell_frame->Some_0) && stored(s, s.members@[cells[i].cell_frame->Some_0]) }
pub open spec fn short(s: Store) -> bool { forall|id: u64| #[trigger] len(s, id) < 0x2000_0000 }
pub open spec fn counted(s: Store, cells: Seq<TableCell>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { counted(s, cells, n - 1) + inside(s, cells[n - 1]).len() } }
pub open spec fn few(s: Store, cells: Seq<TableCell>) -> bool { forall|i: int| 0 <= i <= cells.len() ==> 0 <= #[trigger] counted(s, cells, i) <= 0x1000_0000 }
pub proof fn bounded_start(s: Store, ids: Seq<u64>, k: int)
    requires short(s), 0 <= k <= ids.len()
    ensures 0 <= start(s, ids, k) <= k * 0x2000_0000
    decreases k
{ if k > 0 { bounded_start(s, ids, k - 1); assert(len(s, ids[k - 1]) < 0x2000_0000); } }
pub proof fn same_start(s: Store, a: Seq<u64>, b: Seq<u64>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures start(s, a, k) == start(s, b, k)
    decreases k
{ if k > 0 { same_start(s, a, b, k - 1); } }
pub proof fn one_more(s: Store, v: Seq<Block>, b: Block, base: int, running: int)
    requires placed(s, v, base), running == start(s, ids_of(v), v.len() as int), b.document_position == base + running,
    ensures placed(s, v.push(b), base), running + len(s, b.id) + 1 == start(s, ids_of(v.push(b)), v.len() as int + 1),
{
    let w = v.push(b);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).document_position == base + start(s, ids_of(w), i) by {
        same_start(s, ids_of(v), ids_of(w), i); if i < v.len() { assert(w[i] == v[i]); }
    }
    same_start(s, ids_of(v), ids_of(w), v.len() as int);
}
//@ fn crates/document_editing/src/use_cases/editing_helpers.rs reassign_cell_block_positions
requires cells_owned(uow.s, cells@), few(uow.s, cells@), short(uow.s), *store == uow.s, -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> row_major(uow.s, cells@, r->Ok_0.0@, base_pos as int) && r->Ok_0.1 == start(uow.s, ids_of(r->Ok_0.0@), r->Ok_0.0@.len() as int),
//@ ret r
//@ rwtype &dyn CellBlockReader => &Uow
//@ rwtype common::entities::TableCell => TableCell
//@ rwtype chrono::DateTime<chrono::Utc> => u64
//@ rw blocks_opt.into_iter().flatten().collect() => std_flatten(blocks_opt)
//@ rw blocks.sort_by_key(|b| b.document_position) => std_sort_by_position(&mut blocks)
//@ rwstmt block.updated_at = now; =>
//@ loop 0 before
//raw let ghost mut orders: Seq<Seq<Block>> = Seq::empty();
//@ loop 0 fr
invariant
    cells_owned(uow.s, cells@), few(uow.s, cells@), short(uow.s), *store == uow.s, -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000,
    fr.seq().len() == cells@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == cells@[i],
    in_turn(uow.s, cells@, orders, fr.index@ as int),
    ids_of(blocks_to_update@) =~= ids_of(joined(orders)), placed(uow.s, blocks_to_update@, base_pos as int),
    blocks_to_update@.len() == counted(uow.s, cells@, fr.index@ as int),
    running_pos == start(uow.s, ids_of(blocks_to_update@), blocks_to_update@.len() as int),
//@ loop 0 top
//raw let ghost was = orders; let ghost mut sorted: Seq<Block> = Seq::empty(); proof { assert(*fr.seq()[fr.index@ as int] == cells@[fr.index@ as int]); assert(counted(uow.s, cells@, fr.index@ as int + 1) == blocks_to_update@.len() + inside(uow.s, *cell).len()); }
//@ loop 1 before
assert(block_ids@ == uow.s.members@[cf_id]);
sorted = blocks@;
assert(sorted.subrange(0, 0) =~= Seq::<Block>::empty());
//@ ahead std_sort_by_position(&mut blocks);
assert(blocks@ =~= fetched(uow.s, uow.s.members@[cf_id]));
//@ loop 1 it
invariant
    short(uow.s), *store == uow.s, -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000,
    it.seq() == sorted, ids_of(blocks_to_update@) =~= ids_of(joined(was) + sorted.subrange(0, it.index@ as int)), placed(uow.s, blocks_to_update@, base_pos as int),
    joined(was).len() + sorted.len() <= 0x1000_0000,
    running_pos == start(uow.s, ids_of(blocks_to_update@), blocks_to_update@.len() as int),
//@ loop 1 top
//raw let ghost pre = blocks_to_update@; let ghost prior = running_pos; proof { bounded_start(uow.s, ids_of(pre), pre.len() as int); }
//@ loop 1 bottom
one_more(uow.s, pre, blocks_to_update@.last(), base_pos as int, prior as int);
assert(blocks_to_update@ =~= pre.push(blocks_to_update@.last()));
assert(sorted.subrange(0, it.index@ as int + 1) =~= sorted.subrange(0, it.index@ as int).push(sorted[it.index@ as int]));
assert(blocks_to_update@.last().id == sorted[it.index@ as int].id);
assert forall|q: int| 0 <= q < blocks_to_update@.len() implies #[trigger] ids_of(blocks_to_update@)[q] == ids_of(joined(was) + sorted.subrange(0, it.index@ as int + 1))[q] by {
    let a = joined(was) + sorted.subrange(0, it.index@ as int);
    if q < pre.len() { assert(ids_of(pre)[q] == ids_of(a)[q]); } else { assert(ids_of(pre).len() == ids_of(a).len()); }
}
//@ loop 0 bottom
orders = orders.push(sorted);
assert(orders.drop_last() =~= was);
assert(sorted.subrange(0, sorted.len() as int) =~= sorted);
assert(rising_positions(sorted));
assert(sorted.to_multiset() == inside(uow.s, *cell).to_multiset());
assert(in_turn(uow.s, cells@, orders, fr.index@ as int + 1)) by {
    assert forall|k: int| 0 <= k < fr.index@ as int + 1 implies rising_positions(#[trigger] orders[k]) && orders[k].to_multiset() == inside(uow.s, cells@[k]).to_multiset() by { if k < was.len() { assert(orders[k] == was[k]); } }
}
//@ end
// ---- what lies behind a table makes room for what it now holds
pub enum DocumentRelationshipField { Frames }
#[verifier::external_body] // TRUSTED: a HashSet of ids
pub struct IdSet { x: u8 }
impl IdSet {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body] // TRUSTED: HashSet::contains
    pub fn contains(&self, id: &u64) -> (r: bool) ensures r == self@.contains(*id) { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: into_iter().collect() into a HashSet
pub fn std_set(v: Vec<u64>) -> (r: IdSet) ensures r@ == v@.to_set() { unimplemented!() }
/// TRUSTED: a unit of work on the stored positions
pub struct Sheet { pub s: Store, pub frames: Ghost<Seq<u64>>, pub positions: Ghost<Map<u64, i64>> }
pub open spec fn put_all(m: Map<u64, i64>, bs: Seq<Block>) -> Map<u64, i64>
    decreases bs.len()
{ if bs.len() == 0 { m } else { put_all(m, bs.drop_last()).insert(bs.last().id, bs.last().document_position) } }
pub open spec fn tame(m: Map<u64, i64>) -> bool { forall|id: u64| -0x1000_0000_0000_0000 <= #[trigger] m[id] <= 0x1000_0000_0000_0000 }
impl Sheet {
    #[verifier::external_body] // TRUSTED: the frames of the document
    pub fn get_document_relationship(&self, id: &EntityId, field: &DocumentRelationshipField) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.frames@ { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the paragraphs a frame owns
    pub fn get_frame_relationship(&self, id: &EntityId, field: &FrameRelationshipField) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.s.members@[*id] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the records of the paragraphs asked for
    pub fn get_block_multi(&self, ids: &[EntityId]) -> (r: Result<Vec<Option<Block>>>)
        ensures r is Ok ==> r->Ok_0@.len() == ids@.len() && forall|i: int| 0 <= i < ids@.len() ==> #[trigger] r->Ok_0@[i] == Some(Block { id: ids@[i], document_position: self.positions@[ids@[i]] }),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the records are written one after the other
    pub fn update_block_multi(&mut self, bs: &[Block]) -> (r: Result<()>)
        ensures r is Ok ==> final(self).s == old(self).s && final(self).frames == old(self).frames && final(self).positions@ == put_all(old(self).positions@, bs@),
    { unimplemented!() }
}
/// the paragraph lies in one of the first n frames that are not cells of the table
pub open spec fn apart(s: Store, frames: Seq<u64>, cells: Set<u64>, n: int, id: u64) -> bool { exists|f: int| 0 <= f < n && !cells.contains(#[trigger] frames[f]) && s.members@[frames[f]].contains(id) }
/// of the paragraphs apart from the table, those from base on stand d further; all others as before
pub open spec fn made_room(n: Map<u64, i64>, o: Sheet, cells: Set<u64>, base: int, d: int) -> bool {
    forall|id: u64| #[trigger] n[id] == if apart(o.s, o.frames@, cells, o.frames@.len() as int, id) && o.positions@[id] >= base { o.positions@[id] + d } else { o.positions@[id] as int }
}
pub open spec fn shifts(v: Seq<Block>, m: Map<u64, i64>, base: int, d: int) -> bool { forall|i: int| 0 <= i < v.len() ==> m[(#[trigger] v[i]).id] >= base && v[i].document_position == m[v[i].id] + d }
pub open spec fn holds(v: Seq<Block>, id: u64) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == id }
pub open spec fn gathered(v: Seq<Block>, o: Sheet, cells: Set<u64>, n: int, base: int, d: int) -> bool {
    shifts(v, o.positions@, base, d) && forall|id: u64| #[trigger] holds(v, id) <==> apart(o.s, o.frames@, cells, n, id) && o.positions@[id] >= base
}
pub proof fn put_shifts(m: Map<u64, i64>, v: Seq<Block>, base: int, d: int)
    requires shifts(v, m, base, d)
    ensures forall|id: u64| #[trigger] put_all(m, v)[id] == if holds(v, id) { m[id] + d } else { m[id] as int }
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        assert(shifts(w, m, base, d)) by { assert forall|i: int| 0 <= i < w.len() implies m[(#[trigger] w[i]).id] >= base && w[i].document_position == m[w[i].id] + d by { assert(w[i] == v[i]); } }
        put_shifts(m, w, base, d);
        assert forall|id: u64| #[trigger] put_all(m, v)[id] == if holds(v, id) { m[id] + d } else { m[id] as int } by {
            if holds(w, id) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).id == id; assert(v[i].id == id); }
            if holds(v, id) && id != v.last().id { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == id; assert(w[i].id == id); }
            if id == v.last().id { assert(v[v.len() - 1].id == id); assert(holds(v, id)); } else { assert(put_all(m, v)[id] == put_all(m, w)[id]); assert(holds(v, id) == holds(w, id)); }
        }
    }
}
pub proof fn skip_frame(v: Seq<Block>, o: Sheet, cells: Set<u64>, n: int, base: int, d: int)
    requires gathered(v, o, cells, n, base, d), 0 <= n < o.frames@.len(), cells.contains(o.frames@[n]) || o.s.members@[o.frames@[n]].len() == 0
    ensures gathered(v, o, cells, n + 1, base, d)
{
    assert forall|id: u64| apart(o.s, o.frames@, cells, n + 1, id) == #[trigger] apart(o.s, o.frames@, cells, n, id) by {
        if apart(o.s, o.frames@, cells, n + 1, id) { let f = choose|f: int| 0 <= f < n + 1 && !cells.contains(#[trigger] o.frames@[f]) && o.s.members@[o.frames@[f]].contains(id); assert(f != n); }
    }
    assert forall|id: u64| #[trigger] holds(v, id) <==> apart(o.s, o.frames@, cells, n + 1, id) && o.positions@[id] >= base by { assert(apart(o.s, o.frames@, cells, n + 1, id) == apart(o.s, o.frames@, cells, n, id)); }
}
pub open spec fn among(ids: Seq<u64>, k: int, id: u64) -> bool { exists|j: int| 0 <= j < k && #[trigger] ids[j] == id }
/// within frame n, the first k paragraphs have been looked at
pub open spec fn gathering(v: Seq<Block>, o: Sheet, cells: Set<u64>, n: int, k: int, base: int, d: int) -> bool {
    shifts(v, o.positions@, base, d) && forall|id: u64| #[trigger] holds(v, id) <==> (apart(o.s, o.frames@, cells, n, id) || among(o.s.members@[o.frames@[n]], k, id)) && o.positions@[id] >= base
}
pub proof fn gather(v: Seq<Block>, w: Seq<Block>, o: Sheet, cells: Set<u64>, n: int, k: int, base: int, d: int)
    requires
        gathering(v, o, cells, n, k, base, d), 0 <= n < o.frames@.len(), 0 <= k < o.s.members@[o.frames@[n]].len(),
        ({ let id = o.s.members@[o.frames@[n]][k]; if o.positions@[id] >= base { w.len() == v.len() + 1 && w.drop_last() =~= v && w.last().id == id && w.last().document_position == o.positions@[id] + d } else { w == v } }),
    ensures gathering(w, o, cells, n, k + 1, base, d)
{
    let ids = o.s.members@[o.frames@[n]]; let id0 = ids[k];
    assert forall|id: u64| #[trigger] among(ids, k + 1, id) == (among(ids, k, id) || id == id0) by {
        if among(ids, k + 1, id) && id != id0 { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] ids[j] == id; assert(ids[j] == id && j < k); }
        if among(ids, k, id) { let j = choose|j: int| 0 <= j < k && #[trigger] ids[j] == id; assert(ids[j] == id && j < k + 1); }
        if id == id0 { assert(ids[k] == id); }
    }
    if w != v {
        assert forall|i: int| 0 <= i < w.len() implies o.positions@[(#[trigger] w[i]).id] >= base && w[i].document_position == o.positions@[w[i].id] + d by { if i < v.len() { assert(w[i] == v[i]); } }
        assert forall|id: u64| #[trigger] holds(w, id) == (holds(v, id) || id == id0) by {
            if holds(v, id) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == id; assert(w[i] == v[i]); }
            if id == id0 { assert(w[w.len() - 1].id == id); }
            if holds(w, id) && id != id0 { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).id == id; assert(v[i] == w[i]); }
        }
    }
    assert forall|id: u64| #[trigger] holds(w, id) <==> (apart(o.s, o.frames@, cells, n, id) || among(ids, k + 1, id)) && o.positions@[id] >= base by { assert(among(ids, k + 1, id) == (among(ids, k, id) || id == id0)); assert(holds(v, id) == holds(v, id)); }
}
pub proof fn enter_frame(v: Seq<Block>, o: Sheet, cells: Set<u64>, n: int, base: int, d: int)
    requires gathered(v, o, cells, n, base, d)
    ensures gathering(v, o, cells, n, 0, base, d)
{}
pub proof fn leave_frame(v: Seq<Block>, o: Sheet, cells: Set<u64>, n: int, base: int, d: int)
    requires gathering(v, o, cells, n, o.s.members@[o.frames@[n]].len() as int, base, d), 0 <= n < o.frames@.len(), !cells.contains(o.frames@[n])
    ensures gathered(v, o, cells, n + 1, base, d)
{
    let ids = o.s.members@[o.frames@[n]];
    assert forall|id: u64| #[trigger] apart(o.s, o.frames@, cells, n + 1, id) == (apart(o.s, o.frames@, cells, n, id) || among(ids, ids.len() as int, id)) by {
        if apart(o.s, o.frames@, cells, n + 1, id) { let f = choose|f: int| 0 <= f < n + 1 && !cells.contains(#[trigger] o.frames@[f]) && o.s.members@[o.frames@[f]].contains(id); if f < n { assert(apart(o.s, o.frames@, cells, n, id)); } else { let j = choose|j: int| 0 <= j < ids.len() && ids[j] == id; assert(ids[j] == id); } }
        if apart(o.s, o.frames@, cells, n, id) { let f = choose|f: int| 0 <= f < n && !cells.contains(#[trigger] o.frames@[f]) && o.s.members@[o.frames@[f]].contains(id); assert(f < n + 1 && !cells.contains(o.frames@[f])); }
        if among(ids, ids.len() as int, id) { let j = choose|j: int| 0 <= j < ids.len() && #[trigger] ids[j] == id; assert(ids.contains(id)); assert(!cells.contains(o.frames@[n])); }
    }
    assert forall|id: u64| #[trigger] holds(v, id) <==> apart(o.s, o.frames@, cells, n + 1, id) && o.positions@[id] >= base by { assert(apart(o.s, o.frames@, cells, n + 1, id) == (apart(o.s, o.frames@, cells, n, id) || among(ids, ids.len() as int, id))); }
}
//@ fn crates/document_editing/src/use_cases/insert_table_row_uc.rs execute_insert_table_row
//@ from let frame_ids = $x;
//@ to if !shifted_blocks.is_empty() { $x }
//@ rename room_for_row
//@ yields Ok(())
//@ sig (uow: &mut Sheet, doc_id: EntityId, cell_frame_ids: Vec<EntityId>, base_pos: i64, new_extent: i64, old_extent: i64) -> Result<()>
requires tame(old(uow).positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), cell_frame_ids@.to_set(), base_pos as int, new_extent - old_extent),
//@ ret r
//@ rwtype std::collections::HashSet<EntityId> => IdSet
//@ rw cell_frame_ids.into_iter().collect() => std_set(cell_frame_ids)
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = cell_frame_ids@.to_set();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000, cell_frame_set@ == cells,
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 0 top
//raw let ghost pre = shifted_blocks@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 1 top
//raw let ghost was = shifted_blocks@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent);
//@ loop 0 bottom
if cells.contains(o.frames@[fr.index@ as int]) || o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); } else { leave_frame(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ ahead if !shifted_blocks.is_empty() { $x }
put_shifts(o.positions@, shifted_blocks@, base_pos as int, new_extent - old_extent);
assert(made_room(put_all(o.positions@, shifted_blocks@), o, cells, base_pos as int, new_extent - old_extent));
//@ end
//@ fn crates/document_editing/src/use_cases/insert_table_column_uc.rs execute_insert_table_column
//@ from let frame_ids = $x;
//@ to if !shifted_blocks.is_empty() { $x }
//@ rename room_for_column
//@ yields Ok(())
//@ sig (uow: &mut Sheet, doc_id: EntityId, cell_frame_ids: Vec<EntityId>, base_pos: i64, new_extent: i64, old_extent: i64) -> Result<()>
requires tame(old(uow).positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), cell_frame_ids@.to_set(), base_pos as int, new_extent - old_extent),
//@ ret r
//@ rwtype std::collections::HashSet<EntityId> => IdSet
//@ rw cell_frame_ids.into_iter().collect() => std_set(cell_frame_ids)
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = cell_frame_ids@.to_set();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000, cell_frame_set@ == cells,
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 0 top
//raw let ghost pre = shifted_blocks@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 1 top
//raw let ghost was = shifted_blocks@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent);
//@ loop 0 bottom
if cells.contains(o.frames@[fr.index@ as int]) || o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); } else { leave_frame(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ ahead if !shifted_blocks.is_empty() { $x }
put_shifts(o.positions@, shifted_blocks@, base_pos as int, new_extent - old_extent);
assert(made_room(put_all(o.positions@, shifted_blocks@), o, cells, base_pos as int, new_extent - old_extent));
//@ end
//@ fn crates/document_editing/src/use_cases/remove_table_row_uc.rs execute_remove_table_row
//@ from let frame_ids = $x;
//@ to if !shifted_blocks.is_empty() { $x }
//@ rename room_without_row
//@ yields Ok(())
//@ sig (uow: &mut Sheet, doc_id: EntityId, remaining_frame_ids: Vec<EntityId>, base_pos: i64, new_extent: i64, old_extent: i64) -> Result<()>
requires tame(old(uow).positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), remaining_frame_ids@.to_set(), base_pos as int, new_extent - old_extent),
//@ ret r
//@ rwtype std::collections::HashSet<EntityId> => IdSet
//@ rw remaining_frame_ids.into_iter().collect() => std_set(remaining_frame_ids)
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = remaining_frame_ids@.to_set();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000, cell_frame_set@ == cells,
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 0 top
//raw let ghost pre = shifted_blocks@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 1 top
//raw let ghost was = shifted_blocks@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent);
//@ loop 0 bottom
if cells.contains(o.frames@[fr.index@ as int]) || o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); } else { leave_frame(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ ahead if !shifted_blocks.is_empty() { $x }
put_shifts(o.positions@, shifted_blocks@, base_pos as int, new_extent - old_extent);
assert(made_room(put_all(o.positions@, shifted_blocks@), o, cells, base_pos as int, new_extent - old_extent));
//@ end
//@ fn crates/document_editing/src/use_cases/remove_table_column_uc.rs execute_remove_table_column
//@ from let frame_ids = $x;
//@ to if !shifted_blocks.is_empty() { $x }
//@ rename room_without_column
//@ yields Ok(())
//@ sig (uow: &mut Sheet, doc_id: EntityId, remaining_cell_frame_ids: Vec<EntityId>, base_pos: i64, new_extent: i64, old_extent: i64) -> Result<()>
requires tame(old(uow).positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), remaining_cell_frame_ids@.to_set(), base_pos as int, new_extent - old_extent),
//@ ret r
//@ rwtype std::collections::HashSet<EntityId> => IdSet
//@ rw remaining_cell_frame_ids.into_iter().collect() => std_set(remaining_cell_frame_ids)
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = remaining_cell_frame_ids@.to_set();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000, cell_frame_set@ == cells,
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 0 top
//raw let ghost pre = shifted_blocks@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 1 top
//raw let ghost was = shifted_blocks@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent);
//@ loop 0 bottom
if cells.contains(o.frames@[fr.index@ as int]) || o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); } else { leave_frame(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ ahead if !shifted_blocks.is_empty() { $x }
put_shifts(o.positions@, shifted_blocks@, base_pos as int, new_extent - old_extent);
assert(made_room(put_all(o.positions@, shifted_blocks@), o, cells, base_pos as int, new_extent - old_extent));
//@ end
//@ fn crates/document_editing/src/use_cases/merge_table_cells_uc.rs execute_merge_table_cells
//@ from let frame_ids = $x;
//@ to if !shifted_blocks.is_empty() { $x }
//@ rename room_merged
//@ yields Ok(())
//@ sig (uow: &mut Sheet, doc_id: EntityId, remaining_frame_ids: Vec<EntityId>, base_pos: i64, new_extent: i64, old_extent: i64) -> Result<()>
requires tame(old(uow).positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), remaining_frame_ids@.to_set(), base_pos as int, new_extent - old_extent),
//@ ret r
//@ rwtype std::collections::HashSet<EntityId> => IdSet
//@ rw remaining_frame_ids.into_iter().collect() => std_set(remaining_frame_ids)
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = remaining_frame_ids@.to_set();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000, cell_frame_set@ == cells,
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 0 top
//raw let ghost pre = shifted_blocks@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 1 top
//raw let ghost was = shifted_blocks@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent);
//@ loop 0 bottom
if cells.contains(o.frames@[fr.index@ as int]) || o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); } else { leave_frame(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ ahead if !shifted_blocks.is_empty() { $x }
put_shifts(o.positions@, shifted_blocks@, base_pos as int, new_extent - old_extent);
assert(made_room(put_all(o.positions@, shifted_blocks@), o, cells, base_pos as int, new_extent - old_extent));
//@ end
//@ fn crates/document_editing/src/use_cases/split_table_cell_uc.rs execute_split_table_cell
//@ from let added_cells = $x;
//@ to if added_cells > 0 { $x }
//@ rename room_split
//@ yields Ok(())
//@ sig (sub_cells: Vec<EntityId>, uow: &mut Sheet, doc_id: EntityId, cell_frame_ids: Vec<EntityId>, base_pos: i64, new_extent: i64, old_extent: i64) -> Result<()>
requires sub_cells@.len() <= i64::MAX, tame(old(uow).positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok && sub_cells@.len() > 1 ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), cell_frame_ids@.to_set(), base_pos as int, new_extent - old_extent),
    r is Ok && sub_cells@.len() <= 1 ==> *final(uow) == *old(uow),
//@ ret r
//@ rwtype std::collections::HashSet<EntityId> => IdSet
//@ rw cell_frame_ids.into_iter().collect() => std_set(cell_frame_ids)
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = cell_frame_ids@.to_set();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000, cell_frame_set@ == cells,
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 0 top
//raw let ghost pre = shifted_blocks@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), -0x1000_0000_0000_0000 <= base_pos <= 0x1000_0000_0000_0000, 0 <= new_extent <= 0x1000_0000_0000_0000, 0 <= old_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent),
//@ loop 1 top
//raw let ghost was = shifted_blocks@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, shifted_blocks@, o, cells, fr.index@ as int, it.index@ as int, base_pos as int, new_extent - old_extent);
//@ loop 0 bottom
if cells.contains(o.frames@[fr.index@ as int]) || o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); } else { leave_frame(shifted_blocks@, o, cells, fr.index@ as int, base_pos as int, new_extent - old_extent); }
//@ ahead if !shifted_blocks.is_empty() { $x }
put_shifts(o.positions@, shifted_blocks@, base_pos as int, new_extent - old_extent);
assert(made_room(put_all(o.positions@, shifted_blocks@), o, cells, base_pos as int, new_extent - old_extent));
//@ end
//@ fn crates/document_editing/src/use_cases/remove_table_uc.rs execute_remove_table
//@ from if let Some(table_start_pos) = min_cell_position { $x }
//@ to if let Some(table_start_pos) = min_cell_position { $x }
//@ rename close_up
//@ yields Ok(())
//@ sig (uow: &mut Sheet, doc_id: EntityId, min_cell_position: Option<i64>, table_extent: i64) -> Result<()>
requires tame(old(uow).positions@), 0 <= table_extent <= 0x1000_0000_0000_0000,
ensures
    r is Ok && min_cell_position is Some ==> final(uow).s == old(uow).s && made_room(final(uow).positions@, *old(uow), Set::empty(), min_cell_position->Some_0 as int, -table_extent),
    r is Ok && min_cell_position is None ==> *final(uow) == *old(uow),
//@ ret r
//@ rw blocks_opt.into_iter().flatten() => std_flatten(blocks_opt)
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow; let ghost cells = Set::<u64>::empty();
//@ loop 0 fr
invariant
    *uow == o, tame(o.positions@), 0 <= table_extent <= 0x1000_0000_0000_0000, cells == Set::<u64>::empty(),
    fr.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < fr.seq().len() ==> *(#[trigger] fr.seq()[i]) == o.frames@[i],
    gathered(blocks_to_shift@, o, cells, fr.index@ as int, table_start_pos as int, -table_extent),
//@ loop 0 top
//raw let ghost pre = blocks_to_shift@; proof { assert(*fr.seq()[fr.index@ as int] == o.frames@[fr.index@ as int]); enter_frame(pre, o, cells, fr.index@ as int, table_start_pos as int, -table_extent); }
//@ loop 1 it
invariant
    *uow == o, tame(o.positions@), 0 <= table_extent <= 0x1000_0000_0000_0000,
    0 <= fr.index@ < o.frames@.len(), *fid == o.frames@[fr.index@ as int],
    it.seq().len() == o.s.members@[*fid].len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (Block { id: o.s.members@[*fid][i], document_position: o.positions@[o.s.members@[*fid][i]] }),
    gathering(blocks_to_shift@, o, cells, fr.index@ as int, it.index@ as int, table_start_pos as int, -table_extent),
//@ loop 1 top
//raw let ghost was = blocks_to_shift@; proof { assert(block == it.seq()[it.index@ as int]); }
//@ loop 1 bottom
gather(was, blocks_to_shift@, o, cells, fr.index@ as int, it.index@ as int, table_start_pos as int, -table_extent);
//@ loop 0 bottom
if o.s.members@[o.frames@[fr.index@ as int]].len() == 0 { skip_frame(pre, o, cells, fr.index@ as int, table_start_pos as int, -table_extent); } else { leave_frame(blocks_to_shift@, o, cells, fr.index@ as int, table_start_pos as int, -table_extent); }
//@ ahead if !blocks_to_shift.is_empty() { $x }
put_shifts(o.positions@, blocks_to_shift@, table_start_pos as int, -table_extent);
assert(made_room(put_all(o.positions@, blocks_to_shift@), o, cells, table_start_pos as int, -table_extent));
//@ end
/// the records are as the store has them
pub open spec fn as_stored(v: Seq<Block>, m: Map<u64, i64>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).document_position == m[v[i].id] }
/// of the paragraphs listed, those from base on stand d further; all others as before
pub open spec fn moved_on(n: Map<u64, i64>, o: Map<u64, i64>, v: Seq<Block>, base: int, d: int) -> bool {
    forall|id: u64| #[trigger] n[id] == if holds(v, id) && o[id] >= base { o[id] + d } else { o[id] as int }
}
/// of the first k listed, exactly those from base on
pub open spec fn sifted(w: Seq<Block>, v: Seq<Block>, m: Map<u64, i64>, k: int, base: int, d: int) -> bool { shifts(w, m, base, d) && forall|id: u64| #[trigger] holds(w, id) <==> holds(v.take(k), id) && m[id] >= base }
pub proof fn sift(w: Seq<Block>, x: Seq<Block>, v: Seq<Block>, m: Map<u64, i64>, k: int, base: int, d: int)
    requires
        sifted(w, v, m, k, base, d), 0 <= k < v.len(),
        if m[v[k].id] >= base { x.len() == w.len() + 1 && x.drop_last() =~= w && x.last().id == v[k].id && x.last().document_position == m[v[k].id] + d } else { x == w },
    ensures sifted(x, v, m, k + 1, base, d),
{
    let a = v.take(k); let b = v.take(k + 1);
    if x != w { assert forall|i: int| 0 <= i < x.len() implies m[(#[trigger] x[i]).id] >= base && x[i].document_position == m[x[i].id] + d by { if i < w.len() { assert(x[i] == w[i]); } } }
    assert forall|id: u64| #[trigger] holds(x, id) <==> holds(b, id) && m[id] >= base by {
        assert(b[k] == v[k]);
        if holds(a, id) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).id == id; assert(b[i].id == id); }
        if holds(b, id) && id != v[k].id { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).id == id; assert(a[i].id == id); }
        assert(holds(w, id) == (holds(a, id) && m[id] >= base));
        if x != w {
            if holds(w, id) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).id == id; assert(x[i] == w[i]); }
            if holds(x, id) && id != v[k].id { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).id == id; assert(w[i] == x[i]); }
            if id == v[k].id { assert(x[x.len() - 1].id == id); }
        }
    }
}
//@ fn crates/document_editing/src/use_cases/insert_table_uc.rs execute_insert_table
//@ from let mut shifted_blocks: Vec<Block> = $x;
//@ to if !shifted_blocks.is_empty() { $x }
//@ rename make_way
//@ yields Ok(())
//@ sig (uow: &mut Sheet, all_blocks: Vec<Block>, cell_start_pos: i64, table_size: i64) -> Result<()>
requires tame(old(uow).positions@), 0 <= table_size <= 0x1000_0000_0000_0000, as_stored(all_blocks@, old(uow).positions@),
ensures
    r is Ok ==> moved_on(final(uow).positions@, old(uow).positions@, all_blocks@, cell_start_pos as int, table_size as int),
//@ ret r
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost o = *uow;
//@ loop 0 it
invariant
    *uow == o, tame(o.positions@), 0 <= table_size <= 0x1000_0000_0000_0000, as_stored(all_blocks@, o.positions@),
    it.seq().len() == all_blocks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == all_blocks@[i],
    sifted(shifted_blocks@, all_blocks@, o.positions@, it.index@ as int, cell_start_pos as int, table_size as int),
//@ loop 0 top
//raw let ghost was = shifted_blocks@; proof { assert(*it.seq()[it.index@ as int] == all_blocks@[it.index@ as int]); }
//@ loop 0 bottom
sift(was, shifted_blocks@, all_blocks@, o.positions@, it.index@ as int, cell_start_pos as int, table_size as int);
//@ loop 0 after
assert(all_blocks@.take(all_blocks@.len() as int) =~= all_blocks@);
put_shifts(o.positions@, shifted_blocks@, cell_start_pos as int, table_size as int);
assert(moved_on(put_all(o.positions@, shifted_blocks@), o.positions@, all_blocks@, cell_start_pos as int, table_size as int));
//@ end
/// every cell starts one further than the one before
pub open spec fn lined_up(n: Map<u64, i64>, v: Seq<Block>, base: int) -> bool { forall|k: int| 0 <= k < v.len() ==> n[(#[trigger] v[k]).id] == base + k }
pub open spec fn distinct(v: Seq<Block>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).id == (#[trigger] v[j]).id ==> i == j }
pub proof fn put_lined(m: Map<u64, i64>, v: Seq<Block>, w: Seq<Block>, base: int)
    requires distinct(v), w.len() <= v.len(), forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]).id == v[k].id && w[k].document_position == base + k,
    ensures
        forall|k: int| 0 <= k < w.len() ==> put_all(m, w)[(#[trigger] v[k]).id] == base + k,
        forall|id: u64| !holds(v, id) ==> #[trigger] put_all(m, w)[id] == m[id],
    decreases w.len()
{
    if w.len() > 0 {
        let x = w.drop_last();
        assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k]).id == v[k].id && x[k].document_position == base + k by { assert(x[k] == w[k]); }
        put_lined(m, v, x, base);
        let l = w.len() - 1;
        assert(w[l].id == v[l].id);
        assert forall|k: int| 0 <= k < w.len() implies put_all(m, w)[(#[trigger] v[k]).id] == base + k by { if k < l { assert(v[k].id != v[l].id); assert(put_all(m, w)[v[k].id] == put_all(m, x)[v[k].id]); } }
        assert forall|id: u64| !holds(v, id) implies #[trigger] put_all(m, w)[id] == m[id] by { assert(v[l].id != id); assert(put_all(m, w)[id] == put_all(m, x)[id]); }
    }
}
//@ fn crates/document_editing/src/use_cases/insert_table_uc.rs execute_insert_table
//@ from let mut blocks_to_update: Vec<Block> = $x;
//@ to if !blocks_to_update.is_empty() { $x }
//@ rename lay_cells
//@ yields Ok(())
//@ sig (uow: &mut Sheet, cell_blocks: Vec<Block>, cell_start_pos: i64) -> Result<()>
requires distinct(cell_blocks@), cell_blocks@.len() <= 0x1000_0000_0000_0000, -0x1000_0000_0000_0000 <= cell_start_pos <= 0x1000_0000_0000_0000,
ensures
    r is Ok ==> lined_up(final(uow).positions@, cell_blocks@, cell_start_pos as int) && forall|id: u64| !holds(cell_blocks@, id) ==> #[trigger] final(uow).positions@[id] == old(uow).positions@[id],
//@ ret r
//@ rwstmt updated_block.updated_at = now; =>
//@ top
//raw let ghost o = *uow;
//@ loop 0
invariant
    *uow == o, cell_blocks@.len() <= 0x1000_0000_0000_0000, -0x1000_0000_0000_0000 <= cell_start_pos <= 0x1000_0000_0000_0000,
    blocks_to_update@.len() == offset, forall|k: int| 0 <= k < offset ==> (#[trigger] blocks_to_update@[k]).id == cell_blocks@[k].id && blocks_to_update@[k].document_position == cell_start_pos + k,
//@ loop 0 after
put_lined(o.positions@, cell_blocks@, blocks_to_update@, cell_start_pos as int);
//@ end
}
fn main() {}
