//@ rwtype EntityId => u64
//@ rwtype Arc<Vec<(OffsetMarker, u32)>> => Vec<(OffsetMarker, u32)>
//@ rwtype ImHashMap<OffsetMarker, usize> => MarkerMap
//@ item crates/common/src/database/block_offset_index.rs OffsetMarker
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/common/src/database/block_offset_index.rs BlockOffsetIndex
//@ rw Arc::make_mut(&mut self.entries) => (&mut self.entries)
//@ rwstmt for ($m, $p) in self.marker_index.iter_mut() { $b } => { let mut k: usize = 0; let n = self.marker_index.len(); while k < n { let ($m, $p) = self.marker_index.pair_mut(k); k += 1; $b } }
//@ rw ImHashMap::new() => MarkerMap::new()
//@ rw matches!($x, OffsetMarker::TableAnchor(_)) => is_anchor($x)
//@ rw $x.saturating_sub($y) => sat_sub($x, $y)

pub trait MarkerRef { spec fn anchor(self) -> bool; fn is(self) -> (r: bool) ensures r == self.anchor(); }
impl MarkerRef for OffsetMarker {
    open spec fn anchor(self) -> bool { self is TableAnchor }
    fn is(self) -> (r: bool) { match self { OffsetMarker::TableAnchor(_) => true, _ => false } }
}
impl<'a> MarkerRef for &'a OffsetMarker {
    open spec fn anchor(self) -> bool { *self is TableAnchor }
    fn is(self) -> (r: bool) { match *self { OffsetMarker::TableAnchor(_) => true, _ => false } }
}
pub fn is_anchor<T: MarkerRef>(m: T) -> (r: bool) ensures r == m.anchor() { m.is() }
pub fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }

#[verifier::external_body] // TRUSTED: im::HashMap is a finite map; iter_mut visits every key once (pair_mut(k) is its k-th visit)
pub struct MarkerMap { m: u8 }
impl MarkerMap {
    pub uninterp spec fn view(&self) -> Map<OffsetMarker, usize>;
    pub uninterp spec fn keys(&self) -> Seq<OffsetMarker>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<OffsetMarker, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, m: OffsetMarker, p: usize) -> (r: Option<usize>)
        ensures final(self)@ == old(self)@.insert(m, p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, m: &OffsetMarker) -> (r: Option<usize>)
        ensures final(self)@ == old(self)@.remove(*m),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, m: &OffsetMarker) -> (r: Option<&usize>)
        ensures r is Some <==> self@.dom().contains(*m), r is Some ==> *r->Some_0 == self@[*m],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.keys().len(), self.keys().no_duplicates(), forall|m: OffsetMarker| self@.dom().contains(m) <==> #[trigger] self.keys().contains(m),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pair_mut(&mut self, k: usize) -> (r: (&OffsetMarker, &mut usize))
        requires k < old(self).keys().len(),
        ensures
            *r.0 == old(self).keys()[k as int], *r.1 == old(self)@[old(self).keys()[k as int]],
            final(self)@ == old(self)@.insert(old(self).keys()[k as int], *final(r.1)),
            final(self).keys() == old(self).keys(),
    { unimplemented!() }
}

// ---- specification
pub type Entries = Seq<(OffsetMarker, u32)>;
pub open spec fn n_anchors(e: Entries) -> nat
    decreases e.len()
{ if e.len() == 0 { 0 } else { n_anchors(e.drop_last()) + if e.last().0 is TableAnchor { 1nat } else { 0nat } } }
/// every marker occurs once
pub open spec fn unique(e: Entries) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0 }
pub open spec fn holds(e: Entries, m: OffsetMarker) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == m }
/// the marker index is the inverse of the entry list, and the anchor counter is its number of anchors
pub open spec fn indexed(e: Entries, x: Map<OffsetMarker, usize>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> x.dom().contains((#[trigger] e[i]).0) && x[e[i].0] == i
    &&& forall|m: OffsetMarker| #[trigger] x.dom().contains(m) ==> x[m] < e.len() && e[x[m] as int].0 == m
}
pub open spec fn wf(b: BlockOffsetIndex) -> bool {
    indexed(b.entries@, b.marker_index@) && b.table_anchor_count == n_anchors(b.entries@)
}
/// starts are in order and within the text
pub open spec fn ordered(b: BlockOffsetIndex) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < b.entries@.len() ==> (#[trigger] b.entries@[i]).1 < (#[trigger] b.entries@[j]).1
    &&& forall|i: int| 0 <= i < b.entries@.len() ==> (#[trigger] b.entries@[i]).1 <= b.total_bytes
}
pub open spec fn end_of(b: BlockOffsetIndex, i: int) -> u32 { if i + 1 < b.entries@.len() { b.entries@[i + 1].1 } else { b.total_bytes } }
pub proof fn indexed_unique(e: Entries, x: Map<OffsetMarker, usize>)
    requires indexed(e, x),
    ensures unique(e),
{ assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { if e[i].0 == e[j].0 { assert(x[e[i].0] == i && x[e[j].0] == j); } } }
pub proof fn anchors_add(a: Entries, b: Entries)
    ensures n_anchors(a + b) == n_anchors(a) + n_anchors(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); anchors_add(a, b.drop_last()); }
}
pub proof fn anchors_one(x: (OffsetMarker, u32))
    ensures n_anchors(seq![x]) == if x.0 is TableAnchor { 1nat } else { 0nat },
{ assert(seq![x].drop_last() =~= Seq::empty()); reveal_with_fuel(n_anchors, 2); }
pub proof fn anchors_insert(e: Entries, k: int, x: (OffsetMarker, u32))
    requires 0 <= k <= e.len(),
    ensures n_anchors(e.insert(k, x)) == n_anchors(e) + if x.0 is TableAnchor { 1nat } else { 0nat },
{
    assert(e.insert(k, x) =~= e.take(k) + seq![x] + e.skip(k));
    anchors_add(e.take(k) + seq![x], e.skip(k));
    anchors_add(e.take(k), seq![x]);
    anchors_one(x);
    assert(e =~= e.take(k) + e.skip(k));
    anchors_add(e.take(k), e.skip(k));
}
pub proof fn anchors_cut(e: Entries, a: int, b: int)
    requires 0 <= a <= b <= e.len(),
    ensures n_anchors(e) == n_anchors(e.take(a) + e.skip(b)) + n_anchors(e.subrange(a, b)),
{
    assert(e =~= e.take(a) + e.subrange(a, b) + e.skip(b));
    anchors_add(e.take(a) + e.subrange(a, b), e.skip(b));
    anchors_add(e.take(a), e.subrange(a, b));
    anchors_add(e.take(a), e.skip(b));
}
pub proof fn anchors_le(e: Entries)
    ensures n_anchors(e) <= e.len(),
    decreases e.len(),
{ if e.len() > 0 { anchors_le(e.drop_last()); } }

impl OffsetMarker {
//@ fn crates/common/src/database/block_offset_index.rs OffsetMarker::as_block
ensures r == match self { OffsetMarker::Block(id) => Some(id), _ => None },
//@ end
}
impl BlockOffsetIndex {
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::len
ensures r == self.entries@.len(),
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::is_empty
ensures r == (self.entries@.len() == 0),
//@ ret r
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::total_bytes
ensures r == self.total_bytes,
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::set_total_bytes
ensures final(self).total_bytes == total, final(self).entries == old(self).entries, final(self).marker_index == old(self).marker_index, final(self).table_anchor_count == old(self).table_anchor_count,
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::table_anchor_count
ensures r == self.table_anchor_count,
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::new
ensures wf(r), r.entries@.len() == 0, r.total_bytes == 0,
//@ rw Self::default() => Self::std_default()
//@ end
/// the derived Default: every field its own default
pub fn std_default() -> (r: Self) ensures wf(r), r.entries@.len() == 0, r.total_bytes == 0 { BlockOffsetIndex { entries: Vec::new(), total_bytes: 0, marker_index: MarkerMap::new(), table_anchor_count: 0 } }
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::insert_at
requires wf(*old(self)), position <= old(self).entries@.len(), old(self).entries@.len() < usize::MAX, !holds(old(self).entries@, marker),
ensures
    wf(*final(self)), final(self).entries@ == old(self).entries@.insert(position as int, (marker, byte_start)), final(self).total_bytes == old(self).total_bytes,
//@ top
anchors_le(old(self).entries@);
anchors_insert(old(self).entries@, position as int, (marker, byte_start));
//@ loop 0
invariant
    k <= n, n == self.marker_index.keys().len(), self.marker_index.keys() == old(self).marker_index.keys(), self.marker_index.keys().no_duplicates(),
    wf(*old(self)), old(self).entries@.len() < usize::MAX, !holds(old(self).entries@, marker),
    self.entries@ == old(self).entries@.insert(position as int, (marker, byte_start)), self.total_bytes == old(self).total_bytes, self.table_anchor_count == old(self).table_anchor_count,
    self.marker_index@.dom() =~= old(self).marker_index@.dom(),
    forall|m: OffsetMarker| old(self).marker_index@.dom().contains(m) <==> #[trigger] old(self).marker_index.keys().contains(m),
    forall|j: int| k <= j < n ==> self.marker_index@[#[trigger] self.marker_index.keys()[j]] == old(self).marker_index@[self.marker_index.keys()[j]],
    forall|j: int| 0 <= j < k ==> self.marker_index@[#[trigger] self.marker_index.keys()[j]] == old(self).marker_index@[self.marker_index.keys()[j]] + if old(self).marker_index@[self.marker_index.keys()[j]] >= position { 1int } else { 0int },
decreases n - k,
//@ loop 0 top
//raw let ghost key = self.marker_index.keys()[k as int]; let ghost was = self.marker_index@; let ghost ks = self.marker_index.keys(); let ghost k0 = k as int;
proof { assert(ks.contains(key)); assert(old(self).marker_index@.dom().contains(key)); assert(old(self).entries@[old(self).marker_index@[key] as int].0 == key); assert(key != marker); }
//@ loop 0 bottom
assert forall|j: int| 0 <= j < n && j != k0 implies self.marker_index@[#[trigger] ks[j]] == was[ks[j]] by { assert(ks[j] != key); }
//@ bottom
let (x, y, e) = (old(self).marker_index@, self.marker_index@, old(self).entries@);
let ks = old(self).marker_index.keys();
assert forall|m: OffsetMarker| x.dom().contains(m) implies #[trigger] y[m] == x[m] + (if x[m] >= position { 1int } else { 0int }) by {
    assert(ks.contains(m)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == m; assert(ks[j] == m); assert(m != marker) by { assert(e[x[m] as int].0 == m); }
}
let f = self.entries@;
assert forall|i: int| 0 <= i < f.len() implies y.dom().contains((#[trigger] f[i]).0) && y[f[i].0] == i by {
    if i < position { assert(f[i] == e[i]); assert(x.dom().contains(e[i].0)); } else if i > position { assert(f[i] == e[i - 1]); assert(x.dom().contains(e[i - 1].0)); }
}
assert forall|m: OffsetMarker| #[trigger] y.dom().contains(m) implies y[m] < f.len() && f[y[m] as int].0 == m by {
    if m != marker { assert(x.dom().contains(m)); assert(y[m] == x[m] + (if x[m] >= position { 1int } else { 0int })); assert(e[x[m] as int].0 == m); }
}
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::push
requires wf(*old(self)), old(self).entries@.len() < usize::MAX, !holds(old(self).entries@, marker),
ensures wf(*final(self)), final(self).entries@ == old(self).entries@.push((marker, byte_start)), final(self).total_bytes == old(self).total_bytes,
//@ top
anchors_le(old(self).entries@);
assert(old(self).entries@.push((marker, byte_start)).drop_last() =~= old(self).entries@);
assert(forall|m: OffsetMarker| #[trigger] old(self).marker_index@.dom().contains(m) ==> old(self).entries@[old(self).marker_index@[m] as int].0 == m);
//@ bottom
let (x, y, e, f) = (old(self).marker_index@, self.marker_index@, old(self).entries@, self.entries@);
assert forall|i: int| 0 <= i < f.len() implies y.dom().contains((#[trigger] f[i]).0) && y[f[i].0] == i by { if i < e.len() { assert(f[i] == e[i]); assert(x.dom().contains(e[i].0)); } }
assert forall|m: OffsetMarker| #[trigger] y.dom().contains(m) implies y[m] < f.len() && f[y[m] as int].0 == m by { if m != marker { assert(x.dom().contains(m)); } }
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::push_block
requires wf(*old(self)), old(self).entries@.len() < usize::MAX, !holds(old(self).entries@, OffsetMarker::Block(block_id)),
ensures wf(*final(self)), final(self).entries@ == old(self).entries@.push((OffsetMarker::Block(block_id), byte_start)), final(self).total_bytes == old(self).total_bytes,
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::remove_at
requires wf(*old(self)), position < old(self).entries@.len(),
ensures wf(*final(self)), r == old(self).entries@[position as int], final(self).entries@ == old(self).entries@.remove(position as int), final(self).total_bytes == old(self).total_bytes,
//@ top
indexed_unique(old(self).entries@, old(self).marker_index@);
anchors_le(old(self).entries@);
anchors_cut(old(self).entries@, position as int, position + 1);
assert(old(self).entries@.remove(position as int) =~= old(self).entries@.take(position as int) + old(self).entries@.skip(position + 1));
assert(old(self).entries@.subrange(position as int, position + 1) =~= seq![old(self).entries@[position as int]]);
anchors_one(old(self).entries@[position as int]);
//@ loop 0 before
//raw let ghost x1 = self.marker_index@; let ghost ks = self.marker_index.keys();
//@ loop 0
invariant
    k <= n, n == self.marker_index.keys().len(), self.marker_index.keys() == ks, ks.no_duplicates(),
    self.entries@ == old(self).entries@.remove(position as int), self.total_bytes == old(self).total_bytes, self.table_anchor_count == old(self).table_anchor_count,
    self.marker_index@.dom() =~= x1.dom(),
    forall|m: OffsetMarker| x1.dom().contains(m) <==> #[trigger] ks.contains(m),
    forall|j: int| k <= j < n ==> self.marker_index@[#[trigger] ks[j]] == x1[ks[j]],
    forall|j: int| 0 <= j < k ==> self.marker_index@[#[trigger] ks[j]] == x1[ks[j]] - if x1[ks[j]] > position { 1int } else { 0int },
decreases n - k,
//@ loop 0 top
//raw let ghost key = ks[k as int]; let ghost was = self.marker_index@; let ghost k0 = k as int;
proof { assert(ks.contains(key)); assert(x1.dom().contains(key)); }
//@ loop 0 bottom
assert forall|j: int| 0 <= j < n && j != k0 implies self.marker_index@[#[trigger] ks[j]] == was[ks[j]] by { assert(ks[j] != key); }
//@ loop 0 after
let (x, y, e) = (old(self).marker_index@, self.marker_index@, old(self).entries@);
let gone = e[position as int].0;
assert forall|m: OffsetMarker| x.dom().contains(m) && m != gone implies #[trigger] y[m] == x[m] - (if x[m] > position { 1int } else { 0int }) by {
    assert(x1.dom().contains(m)); assert(ks.contains(m)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == m; assert(ks[j] == m);
}
let f = self.entries@;
assert forall|i: int| 0 <= i < f.len() implies y.dom().contains((#[trigger] f[i]).0) && y[f[i].0] == i by {
    if i < position { assert(f[i] == e[i]); assert(x.dom().contains(e[i].0)); } else { assert(f[i] == e[i + 1]); assert(x.dom().contains(e[i + 1].0)); }
}
assert forall|m: OffsetMarker| #[trigger] y.dom().contains(m) implies y[m] < f.len() && f[y[m] as int].0 == m by {
    assert(x.dom().contains(m) && m != gone); assert(y[m] == x[m] - (if x[m] > position { 1int } else { 0int })); assert(e[x[m] as int].0 == m);
}
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::drain_inclusive
requires wf(*old(self)), start <= end_inclusive < old(self).entries@.len(),
ensures
    wf(*final(self)), r@ == old(self).entries@.subrange(start as int, end_inclusive + 1),
    final(self).entries@ == old(self).entries@.take(start as int) + old(self).entries@.skip(end_inclusive + 1), final(self).total_bytes == old(self).total_bytes,
//@ rw Arc::make_mut(&mut self.entries).drain($a..=$b).collect() => std_drain_inclusive(&mut self.entries, $a, $b)
//@ rw removed.iter().filter(|(m, _)| matches!(m, OffsetMarker::TableAnchor(_))).count() => count_anchors(&removed)
//@ rwstmt for (m, _) in &removed { $b } => { let mut q: usize = 0; while q < removed.len() { let m = &removed[q].0; q += 1; $b } }
//@ top
indexed_unique(old(self).entries@, old(self).marker_index@);
anchors_cut(old(self).entries@, start as int, end_inclusive + 1);
anchors_le(old(self).entries@);
//@ loop 0
invariant
    q <= removed@.len(), removed@ == old(self).entries@.subrange(start as int, end_inclusive + 1), start <= end_inclusive < old(self).entries@.len(),
    self.entries@ == old(self).entries@.take(start as int) + old(self).entries@.skip(end_inclusive + 1), self.total_bytes == old(self).total_bytes, self.table_anchor_count == n_anchors(self.entries@),
    wf(*old(self)), unique(old(self).entries@),
    forall|m: OffsetMarker| #[trigger] self.marker_index@.dom().contains(m) <==> old(self).marker_index@.dom().contains(m) && !(start <= old(self).marker_index@[m] < start + q),
    forall|m: OffsetMarker| self.marker_index@.dom().contains(m) ==> #[trigger] self.marker_index@[m] == old(self).marker_index@[m],
decreases removed@.len() - q,
//@ loop 0 top
//raw let ghost q0 = q as int;
//@ loop 0 bottom
let e = old(self).entries@; let x = old(self).marker_index@;
assert(removed@[q0] == e[start + q0]);
assert(x.dom().contains(e[start + q0].0) && x[e[start + q0].0] == start + q0);
assert forall|m: OffsetMarker| #[trigger] self.marker_index@.dom().contains(m) <==> x.dom().contains(m) && !(start <= x[m] < start + q) by {
    if x.dom().contains(m) { assert(e[x[m] as int].0 == m); }
}
//@ loop 1 before
//raw let ghost x1 = self.marker_index@; let ghost ks = self.marker_index.keys();
//@ loop 1
invariant
    k <= n, n == self.marker_index.keys().len(), self.marker_index.keys() == ks, ks.no_duplicates(), shift == end_inclusive - start + 1, start <= end_inclusive,
    self.entries@ == old(self).entries@.take(start as int) + old(self).entries@.skip(end_inclusive + 1), self.total_bytes == old(self).total_bytes, self.table_anchor_count == n_anchors(self.entries@),
    self.marker_index@.dom() =~= x1.dom(),
    forall|m: OffsetMarker| x1.dom().contains(m) <==> #[trigger] ks.contains(m),
    forall|j: int| k <= j < n ==> self.marker_index@[#[trigger] ks[j]] == x1[ks[j]],
    forall|j: int| 0 <= j < k ==> self.marker_index@[#[trigger] ks[j]] == x1[ks[j]] - if x1[ks[j]] > end_inclusive { shift as int } else { 0int },
decreases n - k,
//@ loop 1 top
//raw let ghost key = ks[k as int]; let ghost was = self.marker_index@; let ghost k0 = k as int;
proof { assert(ks.contains(key)); assert(x1.dom().contains(key)); }
//@ loop 1 bottom
assert forall|j: int| 0 <= j < n && j != k0 implies self.marker_index@[#[trigger] ks[j]] == was[ks[j]] by { assert(ks[j] != key); }
//@ loop 1 after
let (x, y, e, f) = (old(self).marker_index@, self.marker_index@, old(self).entries@, self.entries@);
assert forall|m: OffsetMarker| x1.dom().contains(m) implies #[trigger] y[m] == x[m] - (if x[m] > end_inclusive { shift as int } else { 0int }) by {
    assert(ks.contains(m)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == m; assert(ks[j] == m); assert(x1[m] == x[m]);
}
assert forall|i: int| 0 <= i < f.len() implies y.dom().contains((#[trigger] f[i]).0) && y[f[i].0] == i by {
    let o = if i < start { i } else { i + shift };
    assert(f[i] == e[o]); assert(x.dom().contains(e[o].0) && x[e[o].0] == o); assert(x1.dom().contains(e[o].0));
}
assert forall|m: OffsetMarker| #[trigger] y.dom().contains(m) implies y[m] < f.len() && f[y[m] as int].0 == m by {
    assert(x1.dom().contains(m)); assert(x.dom().contains(m)); assert(y[m] == x[m] - (if x[m] > end_inclusive { shift as int } else { 0int })); assert(e[x[m] as int].0 == m);
}
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::rebuild_marker_index
requires unique(old(self).entries@),
ensures wf(*final(self)), final(self).entries@ == old(self).entries@, final(self).total_bytes == old(self).total_bytes,
//@ loop 0
invariant
    i <= self.entries@.len(), self.entries@ == old(self).entries@, self.total_bytes == old(self).total_bytes, unique(self.entries@),
    indexed(self.entries@.take(i as int), idx@), anchors == n_anchors(self.entries@.take(i as int)), anchors <= i,
//@ loop 0 top
//raw let ghost x0 = idx@; let ghost i0 = i as int;
//@ loop 0 bottom
let e = self.entries@.take(i + 1);
let d = self.entries@.take(i0);
assert(e.drop_last() =~= d);
assert(e.last() == self.entries@[i0]);
assert forall|j: int| 0 <= j < e.len() implies idx@.dom().contains((#[trigger] e[j]).0) && idx@[e[j].0] == j by { if j < i0 { assert(d[j] == e[j]); assert(self.entries@[j] == e[j]); } }
assert forall|m: OffsetMarker| #[trigger] idx@.dom().contains(m) implies idx@[m] < e.len() && e[idx@[m] as int].0 == m by { if m != e.last().0 { assert(x0.dom().contains(m)); assert(d[x0[m] as int].0 == m); } }
//@ bottom
assert(self.entries@.take(self.entries@.len() as int) =~= self.entries@);
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::clear
ensures wf(*final(self)), final(self).entries@.len() == 0, final(self).total_bytes == 0,
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::range_of
requires wf(*self), self.entries@.len() < usize::MAX,
ensures
    r is Some <==> holds(self.entries@, marker),
    forall|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).0 == marker ==> r == Some((self.entries@[i].1, end_of(*self, i))),
//@ rw self.entries.get($i).map(|(_, bs)| *bs).unwrap_or($d) => match self.entries.get($i) { Some(e) => e.1, None => $d }
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::range_of_block
requires wf(*self), self.entries@.len() < usize::MAX,
ensures
    r is Some <==> holds(self.entries@, OffsetMarker::Block(block_id)),
    forall|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).0 == OffsetMarker::Block(block_id) ==> r == Some((self.entries@[i].1, end_of(*self, i))),
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::range_with_successor
requires wf(*self), self.entries@.len() < usize::MAX,
ensures
    r is Some <==> holds(self.entries@, marker),
    forall|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).0 == marker ==> r == Some((self.entries@[i].1, end_of(*self, i), i + 1 < self.entries@.len())),
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::position_of
requires wf(*self),
ensures
    r is Some <==> holds(self.entries@, marker),
    r is Some ==> r->Some_0 < self.entries@.len() && self.entries@[r->Some_0 as int].0 == marker,
//@ rw $x.copied() => match $x { Some(p) => Some(*p), None => None }
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::marker_at_byte
requires ordered(*self),
ensures
    // the marker whose range contains the byte
    r is Some ==> exists|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).0 == r->Some_0 && self.entries@[i].1 <= byte <= self.total_bytes && (i + 1 < self.entries@.len() ==> byte < self.entries@[i + 1].1),
    r is None ==> byte > self.total_bytes || self.entries@.len() == 0 || byte < self.entries@[0].1,
//@ rw self.entries.binary_search_by_key(&byte, |(_, bs)| *bs) => std_search(&self.entries, byte)
//@ end
//@ fn crates/common/src/database/block_offset_index.rs BlockOffsetIndex::shift_after
requires
    ordered(*old(self)), i32::MIN < delta, 0 <= old(self).total_bytes + delta <= u32::MAX,
    shiftable(old(self).entries@, old(self).total_bytes, threshold, delta as int),
ensures
    ordered(*final(self)), final(self).total_bytes == old(self).total_bytes + delta, final(self).marker_index == old(self).marker_index, final(self).table_anchor_count == old(self).table_anchor_count,
    shifted(old(self).entries@, final(self).entries@, threshold, delta as int),
    wf(*old(self)) ==> wf(*final(self)),
//@ rw self.entries.partition_point(|(_, bs)| *bs < threshold) => std_partition(&self.entries, threshold)
//@ rwstmt for (_, bs) in Arc::make_mut(&mut self.entries)[start ..].iter_mut() { $b } => { let mut k: usize = start; while k < self.entries.len() { let bs = &mut self.entries[k].1; k += 1; $b } }
//@ loop 0
invariant
    start <= k <= self.entries@.len(), self.entries@.len() == old(self).entries@.len(), i32::MIN < delta,
    0 <= old(self).total_bytes + delta <= u32::MAX, self.total_bytes == old(self).total_bytes,
    self.marker_index == old(self).marker_index, self.table_anchor_count == old(self).table_anchor_count,
    forall|i: int| start <= i < self.entries@.len() ==> room((#[trigger] old(self).entries@[i]).1, old(self).total_bytes, threshold, delta as int),
    forall|i: int| 0 <= i < start ==> #[trigger] self.entries@[i] == old(self).entries@[i],
    forall|i: int| start <= i < k ==> moved(old(self).entries@[i], #[trigger] self.entries@[i], delta as int),
    forall|i: int| k <= i < self.entries@.len() ==> #[trigger] self.entries@[i] == old(self).entries@[i],
decreases self.entries@.len() - k,
//@ bottom
assert(shifted(old(self).entries@, self.entries@, threshold, delta as int));
shift_keeps(*old(self), *self, threshold, delta as int);
//@ end
}
pub open spec fn room(x: u32, total: u32, threshold: u32, delta: int) -> bool { x >= threshold && x + delta >= 0 && x <= total && total + delta <= u32::MAX }
pub open spec fn moved(a: (OffsetMarker, u32), b: (OffsetMarker, u32), delta: int) -> bool { b.0 == a.0 && b.1 == a.1 + delta }
/// the edit that moves the markers from `threshold` on by `delta` deletes no marker
pub open spec fn shiftable(e: Entries, total: u32, threshold: u32, delta: int) -> bool {
    &&& forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 >= threshold ==> e[i].1 + delta >= 0
    &&& forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 < threshold ==> e[i].1 <= total + delta
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && (#[trigger] e[i]).1 < threshold <= (#[trigger] e[j]).1 ==> e[j].1 + delta > e[i].1
}
/// exactly the markers from `threshold` on are moved, by exactly `delta`
pub open spec fn shifted(a: Entries, b: Entries, threshold: u32, delta: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> moved(a[i], #[trigger] b[i], if a[i].1 >= threshold { delta } else { 0 })
}
pub proof fn shift_keeps(a: BlockOffsetIndex, b: BlockOffsetIndex, threshold: u32, delta: int)
    requires ordered(a), shiftable(a.entries@, a.total_bytes, threshold, delta), shifted(a.entries@, b.entries@, threshold, delta), b.total_bytes == a.total_bytes + delta, a.marker_index == b.marker_index, a.table_anchor_count == b.table_anchor_count,
    ensures ordered(b), wf(a) ==> wf(b),
{
    let (e, f) = (a.entries@, b.entries@);
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).1 < (#[trigger] f[j]).1 by { assert(e[i].1 < e[j].1); }
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1 <= b.total_bytes by { assert(e[i].1 <= a.total_bytes); }
    anchors_same(e, f);
    if wf(a) {
        let x = a.marker_index@;
        assert forall|i: int| 0 <= i < f.len() implies x.dom().contains((#[trigger] f[i]).0) && x[f[i].0] == i by { assert(x.dom().contains(e[i].0)); }
        assert forall|m: OffsetMarker| #[trigger] x.dom().contains(m) implies x[m] < f.len() && f[x[m] as int].0 == m by { assert(e[x[m] as int].0 == m); assert(f[x[m] as int].0 == m); }
    }
}
pub proof fn anchors_same(a: Entries, b: Entries)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0,
    ensures n_anchors(a) == n_anchors(b),
    decreases a.len(),
{ if a.len() > 0 { assert(a[a.len() - 1].0 == b[a.len() - 1].0); anchors_same(a.drop_last(), b.drop_last()); } }
#[verifier::external_body] // TRUSTED: v.drain(a..=b).collect() removes and returns these elements
pub fn std_drain_inclusive(v: &mut Vec<(OffsetMarker, u32)>, a: usize, b: usize) -> (r: Vec<(OffsetMarker, u32)>)
    requires a <= b < old(v)@.len(),
    ensures r@ == old(v)@.subrange(a as int, b + 1), final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b + 1),
{ v.drain(a..=b).collect() }
/// the meaning of iter().filter(is anchor).count()
pub fn count_anchors(v: &Vec<(OffsetMarker, u32)>) -> (r: usize)
    ensures r == n_anchors(v@),
{
    let mut i: usize = 0;
    let mut c: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), c == n_anchors(v@.take(i as int)), c <= i,
        decreases v@.len() - i,
    {
        proof { assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); assert(v@.take(i + 1).last() == v@[i as int]); }
        if is_anchor(&v[i].0) { c += 1; }
        i += 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    c
}
#[verifier::external_body] // TRUSTED: slice::binary_search_by_key on a strictly ordered list
pub fn std_search(v: &Vec<(OffsetMarker, u32)>, b: u32) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i]).1 < (#[trigger] v@[j]).1,
    ensures
        r is Ok ==> r->Ok_0 < v@.len() && v@[r->Ok_0 as int].1 == b,
        r is Err ==> r->Err_0 <= v@.len() && (r->Err_0 > 0 ==> v@[r->Err_0 - 1].1 < b) && (r->Err_0 < v@.len() ==> v@[r->Err_0 as int].1 > b),
{ v.binary_search_by_key(&b, |(_, x)| *x) }
#[verifier::external_body] // TRUSTED: slice::partition_point on an ordered list
pub fn std_partition(v: &Vec<(OffsetMarker, u32)>, t: u32) -> (r: usize)
    requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i]).1 < (#[trigger] v@[j]).1,
    ensures r <= v@.len(), forall|i: int| 0 <= i < r ==> (#[trigger] v@[i]).1 < t, forall|i: int| r <= i < v@.len() ==> (#[trigger] v@[i]).1 >= t,
{ v.partition_point(|(_, x)| *x < t) }
//@ fn crates/common/src/database/block_offset_index.rs apply_delta
requires i32::MIN < delta, 0 <= value + delta <= u32::MAX,
ensures r == value + delta,
//@ rw $x.checked_add($y).expect($s) => ($x + $y)
//@ rw $x.checked_sub($y).expect($s) => ($x - $y)
//@ end
// ---- the property's sentence: every position has one paragraph, paragraphs tile the text
pub proof fn tiled(b: BlockOffsetIndex, i: int)
    requires ordered(b), 0 <= i < b.entries@.len(),
    ensures b.entries@[i].1 <= end_of(b, i), i + 1 < b.entries@.len() ==> end_of(b, i) == b.entries@[i + 1].1, i + 1 == b.entries@.len() ==> end_of(b, i) == b.total_bytes,
{}
