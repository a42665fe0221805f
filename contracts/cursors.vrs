use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ rwtype crate::flow::CellRange => CellRange
pub struct CellRange { pub x: u8 }
//@ item crates/public_api/src/inner.rs CursorData

// ---- specification: an edit replaces the `removed` characters from `edit` on by `added` new ones
/// where a position of the old text is in the new text
pub open spec fn moved(o: int, edit: int, removed: int, added: int) -> int {
    if o <= edit { o } else if o <= edit + removed { edit + added } else { o - removed + added }
}
//@ fn crates/public_api/src/inner.rs adjust_offset
requires
    edit_pos + removed <= usize::MAX, edit_pos + added <= usize::MAX,
    offset + added <= usize::MAX,
ensures
    r == moved(offset as int, edit_pos as int, removed as int, added as int),
//@ end

// ---- lemmas over the contract: the property's sentences
/// a position of the old document is a position of the new document
pub proof fn moved_in_bounds(o: int, e: int, r: int, a: int, len: int)
    requires 0 <= o <= len, 0 <= e, 0 <= r, 0 <= a, e + r <= len,
    ensures 0 <= moved(o, e, r, a) <= len - r + a,
{}
/// the character behind a cursor that is not inside the removed range stays the same
pub proof fn moved_keeps_character(t: Seq<char>, ins: Seq<char>, e: int, r: int, o: int)
    requires 0 <= e, 0 <= r, e + r <= t.len(), 0 <= o <= t.len(),
    ensures ({
        let n = t.subrange(0, e) + ins + t.subrange(e + r, t.len() as int);
        let m = moved(o, e, r, ins.len() as int);
        &&& o > e + r ==> n[m - 1] == t[o - 1]
        &&& o > e + r ==> (o < t.len() ==> n[m] == t[o])
        &&& 0 < o <= e ==> n[m - 1] == t[o - 1]
        &&& o < e ==> n[m] == t[o]
    }),
{}
/// order of cursors is kept
pub proof fn moved_monotone(x: int, y: int, e: int, r: int, a: int)
    requires x <= y, 0 <= r, 0 <= a,
    ensures moved(x, e, r, a) <= moved(y, e, r, a),
{}

// ---- the loop over the cursors. Weak<Mutex<CursorData>> is read as "the data, while alive":
// TRUSTED: Weak::upgrade and Mutex::lock give access to the cursor's own data (no two registered cursors share data)
pub struct CursorRef { pub alive: bool, pub data: CursorData }
impl CursorRef {
    pub fn upgrade(&mut self) -> (r: Option<&mut CursorData>)
        ensures
            final(self).alive == old(self).alive,
            r is Some <==> old(self).alive,
            r is Some ==> *r.unwrap() == old(self).data && *final(r.unwrap()) == final(self).data,
            r is None ==> *final(self) == *old(self),
    {
        if self.alive { Some(&mut self.data) } else { None }
    }
}
//@ rwtype Weak<Mutex<CursorData>> => CursorRef
//@ item crates/public_api/src/inner.rs TextDocumentInner only cursors
pub open spec fn edited(c: CursorData, e: usize, r: usize, a: usize, n: CursorData) -> bool {
    &&& n.position == moved(c.position as int, e as int, r as int, a as int)
    &&& n.anchor == moved(c.anchor as int, e as int, r as int, a as int)
    &&& n.cell_selection_override is None
}
pub open spec fn room(c: CursorRef, added: int) -> bool { c.alive && c.data.position + added <= usize::MAX && c.data.anchor + added <= usize::MAX }
pub open spec fn done(c: CursorRef, e: usize, r: usize, a: usize, n: CursorRef) -> bool { n.alive && edited(c.data, e, r, a, n.data) }
impl TextDocumentInner {
    #[verifier::external_body] // TRUSTED: prune_dead_cursors (Vec::retain on the strong count) drops exactly the cursors that are gone and keeps order
    pub fn prune_dead_cursors(&mut self)
        ensures final(self).cursors@ == old(self).cursors@.filter(|c: CursorRef| c.alive),
    { unimplemented!() }
//@ fn crates/public_api/src/inner.rs TextDocumentInner::adjust_cursors
requires
    edit_pos + removed <= usize::MAX, edit_pos + added <= usize::MAX,
    forall|i: int| 0 <= i < old(self).cursors@.len() ==> (#[trigger] old(self).cursors@[i]).data.position + added <= usize::MAX && old(self).cursors@[i].data.anchor + added <= usize::MAX,
ensures
    ({
        let o = old(self).cursors@.filter(|c: CursorRef| c.alive);
        let n = final(self).cursors@;
        &&& n.len() == o.len()
        &&& forall|i: int| 0 <= i < n.len() ==> done(o[i], edit_pos, removed, added, #[trigger] n[i])
    }),
//@ rw &self.cursors => self.cursors.iter_mut()
//@ rw cursor.lock() => cursor
//@ after prune_dead_cursors 0
let ghost o = old(self).cursors@.filter(|c: CursorRef| c.alive);
assert forall|i: int| 0 <= i < o.len() implies room(#[trigger] o[i], added as int) by {
    assert(o.contains(o[i])); old(self).cursors@.lemma_filter_contains_rev(|c: CursorRef| c.alive, o[i]); old(self).cursors@.lemma_filter_pred(|c: CursorRef| c.alive, i);
}
//@ loop 0 it
invariant
    edit_pos + removed <= usize::MAX, edit_pos + added <= usize::MAX,
    it.seq().len() == old(self).cursors@.filter(|c: CursorRef| c.alive).len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == old(self).cursors@.filter(|c: CursorRef| c.alive)[i],
    forall|i: int| 0 <= i < it.seq().len() ==> room(*#[trigger] it.seq()[i], added as int),
    forall|i: int| 0 <= i < it.index@ ==> done(*it.seq()[i], edit_pos, removed, added, *final(#[trigger] it.seq()[i])),
//@ end
}
}
fn main() {}
