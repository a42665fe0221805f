use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ use rope_ops.vrs

// ---- the paragraph at a position, as the public lookup answers it for a document without tables
//@ item crates/document_inspection/src/dtos.rs BlockInfoDto
#[verifier::external_body] // TRUSTED
pub struct LookupError { x: u8 }
#[verifier::external_body]
pub fn lookup_error() -> LookupError { unimplemented!() }
pub struct BlockRecords { x: u8 }
impl BlockRecords {
    #[verifier::external_body] // TRUSTED: the block table, by number
    pub fn get_block(&self, id: &u64) -> (r: Result<Option<Block>, LookupError>) ensures r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0.id == *id { unimplemented!() }
    #[verifier::external_body] // TRUSTED: ends the reading transaction
    pub fn end_transaction(&self) -> Result<(), LookupError> { unimplemented!() }
}
/// position p belongs to paragraph k: within its text, or at the break before it, unless an empty paragraph before claims it; the last one owns all behind
pub open spec fn para_at(d: Paras, p: int, k: int) -> bool {
    &&& 0 <= k < d.len()
    &&& k == d.len() - 1 || p < stop(d, k) || (d[k].1.len() == 0 && p == stop(d, k))
    &&& k == 0 || p > stop(d, k - 1) || (d[k - 1].1.len() > 0 && p == stop(d, k - 1))
}
pub open spec fn answers(s: RopeStore, p: int, r: BlockInfoDto) -> bool {
    let d = doc(s); let k = r.block_number as int;
    para_at(d, p, k) && d[k].0 is Block && r.block_id == d[k].0->Block_0 as i64 && r.block_start == start(d, k) && r.block_length == d[k].1.len()
}
/// the position handed to the store is inside the text
pub proof fn owner(d: Paras, p: int, c: int, i: int, k: int)
    requires belongs(d, c, i), c == (if p < 0 { 0 } else if p > join(d).len() { join(d).len() as int } else { p }),
        k == if d[i].1.len() > 0 && c == stop(d, i) && i + 1 < d.len() { i + 1 } else { i },
    ensures para_at(d, p, k),
{
    pre_in(d, i); stops(d, i);
    if i > 0 { before(d, i - 1, i); stops(d, i - 1); }
    if i + 1 < d.len() { before(d, i, i + 1); stops(d, i + 1); pre_in(d, i + 1); next_start(d, i); } else { starts_up(d, i, i); }
    starts_at(d, i);
}
pub proof fn starts_at(d: Paras, i: int) requires 0 <= i < d.len(), ensures i > 0 ==> start(d, i) == stop(d, i - 1) + 1, i == 0 ==> start(d, i) == 0 { }
pub proof fn next_start(d: Paras, i: int) requires 0 <= i, i + 1 < d.len(), ensures start(d, i + 1) == stop(d, i) + 1 { }
/// a flat document has no anchors
pub proof fn flat_blocks(s: RopeStore) ensures flat(s) ==> n_anchors(s.block_offsets.entries@) == 0 { }
//@ fn crates/document_inspection/src/use_cases/get_block_at_position_uc.rs GetBlockAtPositionUseCase::execute
//@ from if let Some(($a, $b, $c)) = find_block_at_char_position(&store, position) $d
//@ to if let Some(($a, $b, $c)) = find_block_at_char_position(&store, position) $d
//@ rename block_by_rope
//@ sig (position: i64, store: &RopeStore, uow: &BlockRecords) -> Result<BlockInfoDto, LookupError>
//@ yields Err(lookup_error())
requires tidy(*store), n_anchors(store.block_offsets.entries@) == 0 ==> forall|i: int| 0 <= i < store.block_offsets.entries@.len() ==> (#[trigger] store.block_offsets.entries@[i]).0 is Block,
ensures r is Ok ==> answers(*store, position as int, r->Ok_0),
//@ ret r
//@ rw $x?.ok_or_else(|| $e)? => (match $x? { Some(d) => d, None => { return Err(lookup_error()); } })
//@ rw &store => store
//@ rw $o.position_of($m).and_then(|cur_idx| $o.entries.get(cur_idx + 1).copied()).and_then(|(m, bs)| m.as_block().map(|id| (id, bs))) => (match $o.position_of($m) { Some(cur_idx) => (match $o.entries.get(cur_idx + 1) { Some(en) => { let (m, bs) = *en; match m.as_block() { Some(id) => Some((id, bs)), None => None } } None => None }), None => None })
//@ rw $x.unwrap_or(0) as i64 => (match $x { Some(v) => v, None => 0 }) as i64
//@ top
//raw hide(shows); hide(join); hide(at); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(wf); hide(ordered);
let ghost d = doc(*store); let ghost e = store.block_offsets.entries@; let ghost p = position as int; let ghost c = clamped(*store, p);
proof { lens(*store); }
//@ before get_block 0
//raw let ghost i = choose|i: int| #[trigger] belongs(d, c, i) && d[i].0 == OffsetMarker::Block(block_id) && init_block_char_start == start(d, i) && init_char_in_block == c - start(d, i);
let ghost k = if d[i].1.len() > 0 && c == stop(d, i) && i + 1 < d.len() { i + 1 } else { i };
proof {
    para_is(*store, d[i].0); para_text(*store, i); stops(d, i); owner(d, p, c, i, k); flat_blocks(*store);
    assert(e[i].0 == d[i].0);
    if i + 1 < d.len() { assert(e[i + 1].0 == d[i + 1].0); para_is(*store, d[i + 1].0); para_text(*store, i + 1); stops(d, i + 1); assert(e[i + 1].0 is Block); }
}
//@ before position_of 0
assert(holds(e, d[i].0)); 
//@ behind let block_number = $x;
assert(OffsetMarker::Block(block_id) == d[k].0); assert(block_number == k);
//@ end
}
fn main() {}
