//@ use text_bytes.vrs
#[verifier::external_body] // TRUSTED: ropey::Rope is a sequence of characters with the byte lengths of UTF-8
pub struct Rope { r: u8 }
impl Rope {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len_chars(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn byte_to_char(&self, b: usize) -> (r: usize)
        requires b <= blen(self@),
        ensures r <= self@.len(), blen(self@.take(r as int)) <= b, r < self@.len() ==> b < blen(self@.take(r + 1)),
            forall|k: int| #[trigger] at(self@, b as int, k) ==> r == k, // follows by at_of
    { unimplemented!() }
    #[verifier::external_body]
    pub fn char_to_byte(&self, c: usize) -> (r: usize)
        requires c <= self@.len(),
        ensures r == blen(self@.take(c as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, c: usize, t: &str)
        requires c <= old(self)@.len(),
        ensures final(self)@ == splice(old(self)@, c as int, c as int, t@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_range(&mut self, a: usize, b: usize)
        requires a <= b <= old(self)@.len(),
        ensures final(self)@ == splice(old(self)@, a as int, b as int, Seq::<char>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn byte_text(&self, a: usize, b: usize) -> (r: String)
        requires a <= b, on_char(self@, a as int), on_char(self@, b as int),
        ensures r@ == self@.subrange(char_of(self@, a as int), char_of(self@, b as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// byte_to_char at a character boundary
pub proof fn at_of(s: Seq<char>, b: int, k: int, r: int)
    requires at(s, b, k), 0 <= r <= s.len(), blen(s.take(r)) <= b, r < s.len() ==> b < blen(s.take(r + 1)),
    ensures r == k,
{ if r < k { blen_mono(s, r + 1, k); } else if k < r { blen_mono(s, k, r); } }

// ---- the specification: paragraphs (and table anchors) laid end to end with one separator
pub type Paras = Seq<(OffsetMarker, Seq<char>)>;
/// the text before paragraph i, its separator included
pub open spec fn pre(d: Paras, i: int) -> Seq<char>
    decreases i
{ if i <= 0 { seq![] } else { (pre(d, i - 1) + d[i - 1].1).push('\n') } }
pub open spec fn join(d: Paras) -> Seq<char> { if d.len() == 0 { seq![] } else { pre(d, d.len() - 1) + d.last().1 } }
/// the text after paragraph j - 1, its separator included
pub open spec fn rest(d: Paras, j: int) -> Seq<char> { if j >= d.len() { seq![] } else { seq!['\n'] + join(d.skip(j)) } }
/// the markers stand where the paragraphs start
pub open spec fn laid(d: Paras, e: Entries) -> bool {
    &&& d.len() == e.len()
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] e[i]).0 == d[i].0 && e[i].1 == blen(pre(d, i))
}
/// paragraphs i..j replaced by m
pub open spec fn swap(d: Paras, i: int, j: int, m: Paras) -> Paras { d.take(i) + m + d.skip(j) }
pub proof fn pre_cat(a: Paras, b: Paras, k: int)
    requires 0 <= k <= a.len(),
    ensures pre(a + b, k) == pre(a, k),
    decreases k,
{ if k > 0 { pre_cat(a, b, k - 1); } }
pub proof fn pre_add(a: Paras, b: Paras, k: int)
    requires 0 <= k <= b.len(),
    ensures pre(a + b, a.len() + k) == pre(a, a.len() as int) + pre(b, k),
    decreases k,
{
    if k == 0 { pre_cat(a, b, a.len() as int); assert(pre(a, a.len() as int) + pre(b, 0) =~= pre(a, a.len() as int)); }
    else {
        pre_add(a, b, k - 1);
        assert((a + b)[a.len() + k - 1] == b[k - 1]);
        assert(pre(a + b, a.len() + k) =~= pre(a, a.len() as int) + pre(b, k));
    }
}
pub proof fn join_add(a: Paras, b: Paras)
    requires b.len() > 0,
    ensures join(a + b) == pre(a, a.len() as int) + join(b), a.len() > 0 ==> pre(a, a.len() as int) == join(a).push('\n'),
{
    pre_add(a, b, b.len() - 1);
    assert((a + b).last() == b.last());
    assert(join(a + b) =~= pre(a, a.len() as int) + join(b));
}
/// the text around the paragraphs i..j
pub proof fn around(d: Paras, i: int, j: int)
    requires 0 <= i < j <= d.len(),
    ensures
        join(d) == pre(d, i) + join(d.subrange(i, j)) + rest(d, j),
        forall|k: int| i <= k <= j ==> #[trigger] pre(d, k) == pre(d, i) + pre(d.subrange(i, j), k - i),
        j < d.len() ==> pre(d, j) == (pre(d, i) + join(d.subrange(i, j))).push('\n'),
        blen(join(d)) == blen(pre(d, i)) + blen(join(d.subrange(i, j))) + blen(rest(d, j)),
{
    hide(blen);
    let (a, m, z) = (d.take(i), d.subrange(i, j), d.skip(j));
    assert(d =~= a + (m + z));
    pre_cat(a, m + z, i);
    join_add(a, m + z);
    if z.len() > 0 { join_add(m, z); assert(join(d) =~= pre(d, i) + join(m) + rest(d, j)); } else { assert(m + z =~= m); assert(join(d) =~= pre(d, i) + join(m) + rest(d, j)); }
    assert forall|k: int| i <= k <= j implies #[trigger] pre(d, k) == pre(d, i) + pre(m, k - i) by { pre_add(a, m + z, k - i); pre_cat(m, z, k - i); }
    assert(pre(d, j) == pre(d, i) + pre(m, m.len() as int));
    assert(pre(m, m.len() as int) == join(m).push('\n'));
    assert(pre(d, j) =~= (pre(d, i) + join(m)).push('\n'));
    blen_add(pre(d, i) + join(m), rest(d, j)); blen_add(pre(d, i), join(m));
}
pub proof fn one(x: (OffsetMarker, Seq<char>))
    ensures join(seq![x]) == x.1, pre(seq![x], 0) == Seq::<char>::empty(), pre(seq![x], 1) == x.1.push('\n'),
{ assert(join(seq![x]) =~= x.1); assert(pre(seq![x], 0) + x.1 =~= x.1); assert(pre(seq![x], 1) == (pre(seq![x], 0) + x.1).push('\n')); }
pub proof fn two(x: (OffsetMarker, Seq<char>), y: (OffsetMarker, Seq<char>))
    ensures join(seq![x, y]) == x.1.push('\n') + y.1, pre(seq![x, y], 0) == Seq::<char>::empty(), pre(seq![x, y], 1) == x.1.push('\n'),
{
    assert(pre(seq![x, y], 0) + x.1 =~= x.1);
    assert(pre(seq![x, y], 1) == (pre(seq![x, y], 0) + x.1).push('\n'));
    assert(join(seq![x, y]) =~= x.1.push('\n') + y.1);
}
/// where paragraph q of the changed list starts
pub proof fn moved_start(d: Paras, i: int, j: int, m: Paras, q: int)
    requires 0 <= i < j <= d.len(), m.len() > 0, 0 <= q < i + m.len() + d.len() - j,
    ensures
        q < i ==> pre(swap(d, i, j, m), q) == pre(d, q),
        i <= q < i + m.len() ==> blen(pre(swap(d, i, j, m), q)) == blen(pre(d, i)) + blen(pre(m, q - i)),
        i + m.len() <= q ==> blen(pre(swap(d, i, j, m), q)) == blen(pre(d, q - i - m.len() + j)) + blen(join(m)) - blen(join(d.subrange(i, j))),
{
    let (a, w, z) = (d.take(i), d.subrange(i, j), d.skip(j));
    assert(swap(d, i, j, m) =~= a + (m + z));
    assert(d =~= a + (w + z));
    if q < i { pre_cat(a, m + z, q); pre_cat(a, w + z, q); }
    else {
        pre_add(a, m + z, q - i); pre_cat(a, w + z, i);
        blen_add(pre(a, i), pre(m + z, q - i));
        if q < i + m.len() { pre_cat(m, z, q - i); }
        else {
            let k = q - i - m.len() + j;
            moved_tail(a, m, w, z, k - j);
        }
    }
}
pub proof fn moved_tail(a: Paras, m: Paras, w: Paras, z: Paras, k: int)
    requires m.len() > 0, w.len() > 0, 0 <= k < z.len(),
    ensures blen(pre(a + (m + z), a.len() + m.len() + k)) == blen(pre(a + (w + z), a.len() + w.len() + k)) + blen(join(m)) - blen(join(w)),
{ tail_len(a, m, z, k); tail_len(a, w, z, k); }
pub proof fn tail_len(a: Paras, m: Paras, z: Paras, k: int)
    requires m.len() > 0, 0 <= k < z.len(),
    ensures blen(pre(a + (m + z), a.len() + m.len() + k)) == blen(pre(a, a.len() as int)) + blen(join(m)) + 1 + blen(pre(z, k)),
{
    pre_add(a, m + z, m.len() + k); pre_add(m, z, k);
    blen_add(pre(a, a.len() as int), pre(m + z, m.len() + k)); blen_add(pre(m, m.len() as int), pre(z, k));
    assert(pre(m, m.len() as int) == join(m).push('\n')); blen_push(join(m), '\n');
}
pub proof fn swap_text(d: Paras, i: int, j: int, m: Paras)
    requires 0 <= i < j <= d.len(), m.len() > 0,
    ensures join(swap(d, i, j, m)) == pre(d, i) + join(m) + rest(d, j),
{
    let (a, w, z) = (d.take(i), d.subrange(i, j), d.skip(j));
    assert(swap(d, i, j, m) =~= a + (m + z));
    assert(d =~= a + (w + z));
    pre_cat(a, w + z, i);
    join_add(a, m + z);
    if z.len() > 0 { join_add(m, z); assert(join(swap(d, i, j, m)) =~= pre(d, i) + join(m) + rest(d, j)); } else { assert(m + z =~= m); assert(join(swap(d, i, j, m)) =~= pre(d, i) + join(m) + rest(d, j)); }
}
/// replacing paragraphs replaces the text between and moves the markers behind by the difference
pub proof fn relay(d: Paras, e: Entries, i: int, j: int, m: Paras, e2: Entries)
    requires
        laid(d, e), 0 <= i < j <= d.len(), m.len() > 0, e2.len() == i + m.len() + d.len() - j,
        forall|k: int| 0 <= k < i ==> #[trigger] e2[k] == e[k],
        forall|k: int| i <= k < i + m.len() ==> (#[trigger] e2[k]).0 == m[k - i].0 && e2[k].1 == blen(pre(d, i)) + blen(pre(m, k - i)),
        forall|k: int| i + m.len() <= k < e2.len() ==> (#[trigger] e2[k]).0 == e[k + j - i - m.len()].0 && e2[k].1 == e[k + j - i - m.len()].1 + blen(join(m)) - blen(join(d.subrange(i, j))),
    ensures laid(swap(d, i, j, m), e2), join(swap(d, i, j, m)) == pre(d, i) + join(m) + rest(d, j),
{
    swap_text(d, i, j, m);
    let n = swap(d, i, j, m);
    assert forall|q: int| 0 <= q < n.len() implies (#[trigger] e2[q]).0 == n[q].0 && e2[q].1 == blen(pre(n, q)) by {
        moved_start(d, i, j, m, q);
        if q < i { assert(e2[q] == e[q]); } else if q >= i + m.len() { assert(e[q + j - i - m.len()].0 == d[q + j - i - m.len()].0); }
    }
}
/// starts are strictly increasing and within the text
pub proof fn starts_up(d: Paras, i: int, j: int)
    requires 0 <= i <= j < d.len(),
    ensures
        i < j ==> blen(pre(d, i)) + blen(d[i].1) < blen(pre(d, j)), i + 1 == j ==> blen(pre(d, j)) == blen(pre(d, i)) + blen(d[i].1) + 1,
        blen(pre(d, j)) + blen(d[j].1) <= blen(join(d)), j + 1 == d.len() ==> blen(pre(d, j)) + blen(d[j].1) == blen(join(d)),
    decreases j - i,
{
    around(d, j, j + 1);
    assert(d.subrange(j, j + 1) =~= seq![d[j]]);
    one(d[j]);
    if j + 1 == d.len() { assert(rest(d, j + 1) =~= Seq::<char>::empty()); }
    if i < j {
        starts_up(d, i, j - 1);
        blen_push(pre(d, j - 1) + d[j - 1].1, '\n'); blen_add(pre(d, j - 1), d[j - 1].1);
    }
}

// ---- the store
//@ rwtype RwLock<Rope> => Rope
//@ rwtype RwLock<BlockOffsetIndex> => BlockOffsetIndex
//@ rwtype RwLock<HashMap<u64, Block>> => BlockTable
//@ rwtype Store => RopeStore
#[verifier::external_body] // TRUSTED: im::HashMap::len counts its keys
pub struct BlockTable { m: u8 }
impl BlockTable {
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
}
//@ item crates/common/src/database/rope_store.rs RopeStore only rope, blocks, block_offsets
//@ item crates/common/src/entities.rs Block only id, document_position
/// the largest text the byte offsets are made for
pub open spec fn fits(n: int) -> bool { n <= 0x7fff_fff0 }
/// the store holds these paragraphs
pub open spec fn shows(s: RopeStore, d: Paras) -> bool {
    wf(s.block_offsets) && s.rope@ == join(d) && laid(d, s.block_offsets.entries@) && s.block_offsets.total_bytes == blen(s.rope@) && fits(blen(s.rope@) as int)
}
/// the same, with a separator written for the next paragraph
pub open spec fn shows_open(s: RopeStore, d: Paras) -> bool {
    wf(s.block_offsets) && d.len() > 0 && s.rope@ == join(d).push('\n') && laid(d, s.block_offsets.entries@) && s.block_offsets.total_bytes == blen(s.rope@) && fits(blen(s.rope@) as int)
}
pub proof fn few(d: Paras, i: int)
    requires 0 <= i <= d.len(),
    ensures pre(d, i).len() >= i, i == d.len() ==> d.len() <= join(d).len() + 1,
    decreases i,
{ if i > 0 { few(d, i - 1); } }
pub open spec fn tidy(s: RopeStore) -> bool { exists|d: Paras| shows(s, d) }
pub open spec fn doc(s: RopeStore) -> Paras { choose|d: Paras| shows(s, d) }
pub open spec fn open_doc(s: RopeStore) -> Paras { choose|d: Paras| shows_open(s, d) }
pub open spec fn is_open(s: RopeStore) -> bool { exists|d: Paras| shows_open(s, d) }
pub open spec fn names(d: Paras, m: OffsetMarker) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == m }
pub proof fn same_text(t: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires a.len() <= t.len(), b.len() <= t.len(), t.take(a.len() as int) == a, t.take(b.len() as int) == b, blen(a) == blen(b),
    ensures a == b,
{ if a.len() < b.len() { blen_mono(t, a.len() as int, b.len() as int); } else if b.len() < a.len() { blen_mono(t, b.len() as int, a.len() as int); } }
pub proof fn pre_in(d: Paras, i: int)
    requires 0 <= i < d.len(),
    ensures join(d).len() >= pre(d, i).len() + d[i].1.len(), join(d).take(pre(d, i).len() as int) == pre(d, i),
        join(d).subrange(pre(d, i).len() as int, (pre(d, i).len() + d[i].1.len()) as int) == d[i].1,
        at(join(d), blen(pre(d, i)) as int, pre(d, i).len() as int), at(join(d), (blen(pre(d, i)) + blen(d[i].1)) as int, (pre(d, i).len() + d[i].1.len()) as int),
{
    around(d, i, i + 1);
    assert(d.subrange(i, i + 1) =~= seq![d[i]]);
    one(d[i]);
    let (p, c) = (pre(d, i), d[i].1);
    assert(join(d) == p + c + rest(d, i + 1));
    assert(join(d).take(p.len() as int) =~= p);
    assert(join(d).take((p.len() + c.len()) as int) =~= p + c);
    assert(join(d).subrange(p.len() as int, (p.len() + c.len()) as int) =~= c);
    blen_add(p, c);
}
/// a place in a paragraph is a place in the text
pub proof fn place(d: Paras, i: int, b: int, k: int)
    requires 0 <= i < d.len(), at(d[i].1, b, k),
    ensures at(join(d), blen(pre(d, i)) + b, pre(d, i).len() + k), 0 <= b <= blen(d[i].1),
{
    around(d, i, i + 1);
    assert(d.subrange(i, i + 1) =~= seq![d[i]]);
    one(d[i]);
    let (p, c) = (pre(d, i), d[i].1);
    assert(join(d).take((p.len() + k) as int) =~= p + c.take(k));
    blen_add(p, c.take(k));
    blen_mono(c, k, c.len() as int);
    assert(c.take(c.len() as int) =~= c);
}
/// a store holds one list of paragraphs
pub proof fn one_doc(s: RopeStore, a: Paras, b: Paras)
    requires shows(s, a), shows(s, b),
    ensures a == b, doc(s) == a, tidy(s),
{
    only_doc(s.rope@, s.block_offsets.entries@, a, b);
    only_doc(s.rope@, s.block_offsets.entries@, a, doc(s));
}
pub proof fn only_doc(t: Seq<char>, e: Entries, a: Paras, b: Paras)
    requires t == join(a), t == join(b), laid(a, e), laid(b, e),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        pre_in(a, i); pre_in(b, i); assert(e[i].0 == a[i].0);
        same_text(t, pre(a, i), pre(b, i));
        starts_up(a, i, i); starts_up(b, i, i);
        if i + 1 < a.len() { assert(e[i + 1].0 == a[i + 1].0); starts_up(a, i, i + 1); starts_up(b, i, i + 1); }
        assert(blen(a[i].1) == blen(b[i].1));
        let (x, y) = (pre(a, i) + a[i].1, pre(b, i) + b[i].1);
        blen_add(pre(a, i), a[i].1); blen_add(pre(b, i), b[i].1);
        around(a, i, i + 1); around(b, i, i + 1); assert(a.subrange(i, i + 1) =~= seq![a[i]]); assert(b.subrange(i, i + 1) =~= seq![b[i]]); one(a[i]); one(b[i]);
        assert(t.take(x.len() as int) =~= x); assert(t.take(y.len() as int) =~= y);
        same_text(t, x, y);
        assert(a[i].1 =~= x.skip(pre(a, i).len() as int)); assert(b[i].1 =~= y.skip(pre(b, i).len() as int));
    }
    assert(a =~= b);
}
pub proof fn is_doc(s: RopeStore, d: Paras)
    requires shows(s, d),
    ensures tidy(s), doc(s) == d, ordered(s.block_offsets),
{ assert(shows(s, doc(s))); one_doc(s, d, doc(s)); in_order(s, d); }
pub proof fn in_order(s: RopeStore, d: Paras)
    requires laid(d, s.block_offsets.entries@), s.block_offsets.total_bytes >= blen(join(d)),
    ensures ordered(s.block_offsets),
{
    let e = s.block_offsets.entries@;
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).1 < (#[trigger] e[j]).1 by { starts_up(d, i, j); }
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).1 <= s.block_offsets.total_bytes by { starts_up(d, i, i); }
}
pub proof fn has_doc(s: RopeStore)
    requires tidy(s),
    ensures shows(s, doc(s)), ordered(s.block_offsets), unique(s.block_offsets.entries@), s.block_offsets.entries@.len() <= 0x7fff_fff1, s.block_offsets.entries@.len() == doc(s).len(),
{ few(doc(s), doc(s).len() as int); blen_ge(s.rope@); is_doc(s, doc(s)); indexed_unique(s.block_offsets.entries@, s.block_offsets.marker_index@); }
