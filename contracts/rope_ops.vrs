//@ use offset_index.vrs
//@ use rope_text.vrs
//@ rw store.rope.write().unwrap() => (&mut store.rope)
//@ rw store.rope.read().unwrap() => (&store.rope)
//@ rw store.block_offsets.write().unwrap() => (&mut store.block_offsets)
//@ rw store.block_offsets.read().unwrap() => (&store.block_offsets)
//@ rw store.blocks.read().unwrap() => (&store.blocks)
//@ rw rope.byte_slice($a as usize..$b as usize).to_string() => rope.byte_text($a as usize, $b as usize)
//@ rw rope.remove($a..$b) => rope.remove_range($a, $b)
//@ rw $x.entries.iter().position(|(m, _)| *m == $y).unwrap() => std_index_of(&$x.entries, $y)
//@ rw text.len() => std_len(text)
//@ rw new_text.len() => std_len(new_text)
//@ rwstmt drop(offsets); => ;
//@ rwstmt drop(rope); => ;
/// the meaning of iter().position(|(m, _)| *m == marker)
pub fn std_index_of(v: &Vec<(OffsetMarker, u32)>, m: OffsetMarker) -> (r: usize)
    requires exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == m,
    ensures r < v@.len(), v@[r as int].0 == m,
{
    let mut i: usize = 0;
    while i < v.len() && v[i].0 != m
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).0 != m,
        decreases v@.len() - i,
    { i += 1; }
    proof { if i == v@.len() { assert(false); } }
    i
}
pub open spec fn start(d: Paras, i: int) -> int { pre(d, i).len() as int }
pub open spec fn stop(d: Paras, i: int) -> int { pre(d, i).len() + d[i].1.len() as int }
pub open spec fn para(d: Paras, m: OffsetMarker) -> int { choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == m }
pub proof fn para_is(s: RopeStore, m: OffsetMarker)
    requires tidy(s),
    ensures
        shows(s, doc(s)), ordered(s.block_offsets), unique(s.block_offsets.entries@), s.block_offsets.entries@.len() == doc(s).len(), s.block_offsets.entries@.len() <= 0x7fff_fff1,
        holds(s.block_offsets.entries@, m) <==> names(doc(s), m),
        names(doc(s), m) ==> 0 <= para(doc(s), m) < doc(s).len() && doc(s)[para(doc(s), m)].0 == m && s.block_offsets.entries@[para(doc(s), m)].0 == m,
        forall|i: int| 0 <= i < doc(s).len() && (#[trigger] doc(s)[i]).0 == m ==> i == para(doc(s), m),
        forall|i: int| 0 <= i < doc(s).len() && (#[trigger] s.block_offsets.entries@[i]).0 == m ==> i == para(doc(s), m),
{
    has_doc(s);
    let (d, e) = (doc(s), s.block_offsets.entries@);
    if holds(e, m) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == m; assert(d[i].0 == m); assert(names(d, m)); }
    if names(d, m) { let i = para(d, m); assert(e[i].0 == d[i].0); assert(holds(e, m)); }
    assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == m implies i == para(d, m) by { assert(e[i].0 == d[i].0); let p = para(d, m); assert(e[p].0 == d[p].0); assert(names(d, m)); if i < p { assert(e[i].0 != e[p].0); } else if p < i { assert(e[p].0 != e[i].0); } }
    assert forall|i: int| 0 <= i < d.len() && (#[trigger] e[i]).0 == m implies i == para(d, m) by { assert(d[i].0 == m); }
}
/// start, end and text of a paragraph of the store
pub proof fn para_text(s: RopeStore, i: int)
    requires tidy(s), 0 <= i < doc(s).len(),
    ensures ({
        let d = doc(s); let e = s.block_offsets.entries@; let p = start(d, i);
        &&& e[i].1 == blen(pre(d, i))
        &&& end_of(s.block_offsets, i) == e[i].1 + blen(d[i].1) + if i + 1 < d.len() { 1int } else { 0int }
        &&& at(s.rope@, e[i].1 as int, p) && at(s.rope@, e[i].1 + blen(d[i].1) as int, p + d[i].1.len())
        &&& s.rope@.subrange(p, p + d[i].1.len()) == d[i].1
        &&& e[i].1 + blen(d[i].1) <= blen(s.rope@) && fits(blen(s.rope@) as int)
        &&& s.rope@.len() <= blen(s.rope@)
    }),
{
    has_doc(s);
    let d = doc(s);
    pre_in(d, i); starts_up(d, i, i); blen_ge(s.rope@);
    assert(s.block_offsets.entries@[i].0 == d[i].0);
    if i + 1 < d.len() { assert(s.block_offsets.entries@[i + 1].0 == d[i + 1].0); starts_up(d, i, i + 1); }
}
//@ fn crates/common/src/database/rope_helpers.rs block_content_via_store
requires tidy(*store),
ensures r@ == if names(doc(*store), OffsetMarker::Block(block.id)) { doc(*store)[para(doc(*store), OffsetMarker::Block(block.id))].1 } else { Seq::<char>::empty() },
//@ ret r
//@ top
para_is(*store, OffsetMarker::Block(block.id));
reveal_strlit("");
if names(doc(*store), OffsetMarker::Block(block.id)) { let i = para(doc(*store), OffsetMarker::Block(block.id)); para_text(*store, i);
    at_one(store.rope@, store.block_offsets.entries@[i].1 as int, start(doc(*store), i));
    at_one(store.rope@, store.block_offsets.entries@[i].1 + blen(doc(*store)[i].1) as int, stop(doc(*store), i)); }
//@ end
//@ fn crates/common/src/database/rope_helpers.rs block_char_length
requires tidy(*store),
ensures r == if names(doc(*store), OffsetMarker::Block(block.id)) { doc(*store)[para(doc(*store), OffsetMarker::Block(block.id))].1.len() as int } else { 0 },
//@ ret r
//@ top
para_is(*store, OffsetMarker::Block(block.id));
//@ bottom
let i = para(doc(*store), OffsetMarker::Block(block.id)); para_text(*store, i);
at_of(store.rope@, bs as int, start(doc(*store), i), char_start as int);
at_of(store.rope@, content_end_bytes as int, stop(doc(*store), i), char_end as int);
//@ end
//@ fn crates/common/src/database/rope_helpers.rs block_document_position
requires tidy(*store),
ensures r == if names(doc(*store), OffsetMarker::Block(block.id)) { start(doc(*store), para(doc(*store), OffsetMarker::Block(block.id))) } else { block.document_position as int },
//@ ret r
//@ top
para_is(*store, OffsetMarker::Block(block.id));
if names(doc(*store), OffsetMarker::Block(block.id)) { let i = para(doc(*store), OffsetMarker::Block(block.id)); para_text(*store, i); }
//@ end
//@ fn crates/common/src/database/rope_helpers.rs rope_positions_match_flow
requires tidy(*store),
ensures r == (n_anchors(store.block_offsets.entries@) == 0 && doc(*store).len() == store.blocks.count()),
//@ ret r
//@ top
has_doc(*store);
//@ end
//@ rw position.clamp($a, $b) => std_clamp(position, $a, $b)
//@ rw std::cmp::min($a, $b) => std_min($a, $b)
//@ rw $x.entries.iter().any(|(m, _)| is_anchor(m)) => std_any_anchor(&$x.entries)
pub fn std_clamp(x: i64, a: i64, b: i64) -> (r: i64) requires a <= b, ensures r == if x < a { a } else if x > b { b } else { x } { if x < a { a } else if x > b { b } else { x } }
pub fn std_min(a: usize, b: usize) -> (r: usize) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
pub proof fn no_anchors(e: Entries)
    ensures n_anchors(e) == 0 <==> forall|i: int| 0 <= i < e.len() ==> !((#[trigger] e[i]).0 is TableAnchor),
    decreases e.len(),
{ if e.len() > 0 { no_anchors(e.drop_last()); assert(forall|i: int| 0 <= i < e.len() - 1 ==> #[trigger] e[i] == e.drop_last()[i]); assert(e.last() == e[e.len() - 1]); } }
/// the meaning of iter().any(is anchor)
pub fn std_any_anchor(v: &Vec<(OffsetMarker, u32)>) -> (r: bool)
    ensures r == (n_anchors(v@) > 0),
{
    let mut i: usize = 0;
    proof { no_anchors(v@); }
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> !((#[trigger] v@[k]).0 is TableAnchor), n_anchors(v@) == 0 <==> forall|i: int| 0 <= i < v@.len() ==> !((#[trigger] v@[i]).0 is TableAnchor),
        decreases v@.len() - i,
    { if is_anchor(&v[i].0) { return true; } i += 1; }
    false
}
/// every paragraph is in the rope, and no table
pub open spec fn flat(s: RopeStore) -> bool { n_anchors(s.block_offsets.entries@) == 0 && doc(s).len() == s.blocks.count() }
/// the paragraph a position of the text belongs to: from its start to its end, the separator being the end of the one before
pub open spec fn belongs(d: Paras, p: int, i: int) -> bool { 0 <= i < d.len() && start(d, i) <= p <= stop(d, i) }
pub proof fn byte_in_para(d: Paras, p: int, i: int)
    requires 0 <= i < d.len(), 0 <= p <= join(d).len(), blen(pre(d, i)) <= blen(join(d).take(p)), i + 1 < d.len() ==> blen(join(d).take(p)) < blen(pre(d, i + 1)),
    ensures belongs(d, p, i), blen(join(d).take(p)) <= blen(pre(d, i)) + blen(d[i].1),
{
    let t = join(d);
    pre_in(d, i);
    let (a, b) = (start(d, i), stop(d, i));
    if p < a { blen_mono(t, p, a); }
    if i + 1 < d.len() {
        pre_in(d, i + 1); starts_up(d, i, i + 1);
        if p > b { blen_mono(t, b, p); }
    } else { starts_up(d, i, i); assert(t.take(t.len() as int) =~= t); if b < t.len() { blen_mono(t, b, t.len() as int); } }
    blen_mono(t, p, b);
}
/// exactly one paragraph has it
pub proof fn belongs_one(d: Paras, p: int, i: int, j: int)
    requires belongs(d, p, i), belongs(d, p, j),
    ensures i == j,
{ if i < j { before(d, i, j); } else if j < i { before(d, j, i); } }
pub proof fn before(d: Paras, i: int, j: int)
    requires 0 <= i < j < d.len(),
    ensures stop(d, i) < start(d, j),
    decreases j - i,
{ if i + 1 < j { before(d, i, j - 1); } }
pub proof fn lens(s: RopeStore)
    requires tidy(s),
    ensures wf(s.block_offsets), ordered(s.block_offsets), s.block_offsets.entries@.len() < usize::MAX, s.rope@.len() <= blen(s.rope@) <= 0x7fff_fff0, s.rope@ == join(doc(s)), doc(s).len() == s.block_offsets.entries@.len(),
        s.block_offsets.table_anchor_count == n_anchors(s.block_offsets.entries@),
        forall|i: int| 0 <= i < doc(s).len() ==> (#[trigger] doc(s)[i]).0 == s.block_offsets.entries@[i].0,
{ has_doc(s); blen_ge(s.rope@); assert forall|i: int| 0 <= i < doc(s).len() implies (#[trigger] doc(s)[i]).0 == s.block_offsets.entries@[i].0 by { assert(s.block_offsets.entries@[i].0 == doc(s)[i].0); } }
pub open spec fn byte_at(s: RopeStore, p: int) -> int { blen(s.rope@.take(p)) as int }
pub open spec fn holds_byte(e: Entries, i: int, b: int) -> bool { 0 <= i < e.len() && e[i].1 <= b && (i + 1 < e.len() ==> b < e[i + 1].1) }
pub proof fn locate(s: RopeStore, p: int)
    requires tidy(s), 0 <= p <= s.rope@.len(),
    ensures ({
        let e = s.block_offsets.entries@; let b = byte_at(s, p);
        &&& b <= s.block_offsets.total_bytes && fits(s.block_offsets.total_bytes as int) && b <= blen(s.rope@) && s.block_offsets.total_bytes == blen(s.rope@)
        &&& e.len() > 0 ==> e[0].1 == 0
        &&& at(s.rope@, b, p)
        &&& forall|i: int| #[trigger] holds_byte(e, i, b) ==> belongs(doc(s), p, i) && at(s.rope@, e[i].1 as int, start(doc(s), i)) && e[i].1 <= b <= end_of(s.block_offsets, i) - if i + 1 < e.len() { 1int } else { 0int } && e[i].1 <= blen(s.rope@)
    }),
{
    has_doc(s);
    let d = doc(s); let e = s.block_offsets.entries@; let b = byte_at(s, p);
    blen_mono(s.rope@, p, p);
    if e.len() > 0 { assert(e[0].0 == d[0].0); }
    assert forall|i: int| #[trigger] holds_byte(e, i, b) implies belongs(d, p, i) && at(s.rope@, e[i].1 as int, start(d, i)) && e[i].1 <= b <= end_of(s.block_offsets, i) - (if i + 1 < e.len() { 1int } else { 0int }) && e[i].1 <= blen(s.rope@) by {
        assert(e[i].0 == d[i].0); if i + 1 < d.len() { assert(e[i + 1].0 == d[i + 1].0); }
        byte_in_para(d, p, i); para_text(s, i);
    }
}
pub open spec fn clamped(s: RopeStore, x: int) -> int { if x < 0 { 0 } else if x > s.rope@.len() { s.rope@.len() as int } else { x } }
//@ fn crates/common/src/database/rope_helpers.rs find_block_at_char_position
requires tidy(*store), n_anchors(store.block_offsets.entries@) == 0 ==> forall|i: int| 0 <= i < store.block_offsets.entries@.len() ==> (#[trigger] store.block_offsets.entries@[i]).0 is Block,
ensures
    store.rope@ == join(doc(*store)),
    r is Some <==> flat(*store) && doc(*store).len() > 0,
    r is Some ==> exists|i: int| #[trigger] belongs(doc(*store), clamped(*store, position as int), i) && doc(*store)[i].0 == OffsetMarker::Block(r->Some_0.0) && r->Some_0.2 == start(doc(*store), i) && r->Some_0.1 == clamped(*store, position as int) - start(doc(*store), i),
//@ ret r
//@ top
//raw hide(shows); hide(join); hide(at); hide(belongs); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed);
proof {
has_doc(*store);
lens(*store);
locate(*store, clamped(*store, position as int));
}
//@ ahead let ($a, $b, $c) = offsets.range_with_successor($m)?;
//raw proof { let i = choose|i: int| 0 <= i < store.block_offsets.entries@.len() && (#[trigger] store.block_offsets.entries@[i]).0 == OffsetMarker::Block(block_id) && store.block_offsets.entries@[i].1 <= abs_byte <= store.block_offsets.total_bytes && (i + 1 < store.block_offsets.entries@.len() ==> abs_byte < store.block_offsets.entries@[i + 1].1);
    assert(holds_byte(store.block_offsets.entries@, i, abs_byte as int)); assert(belongs(doc(*store), clamped(*store, position as int), i)); assert(doc(*store)[i].0 == OffsetMarker::Block(block_id)); }
//@ end
//@ fn crates/common/src/database/rope_helpers.rs block_char_to_byte_in_block
requires tidy(*store),
ensures ({
    let d = doc(*store); let m = OffsetMarker::Block(block_id); let t = d[para(d, m)].1;
    if names(d, m) { r.0 == blen(t.take(if char_offset < t.len() { char_offset as int } else { t.len() as int })) && r.1 == blen(t) } else { r == (0u32, 0usize) }
}),
//@ ret r
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(stop); hide(n_anchors); hide(indexed);
proof {
para_is(*store, OffsetMarker::Block(block_id)); lens(*store);
let d = doc(*store); let m = OffsetMarker::Block(block_id);
if names(d, m) { let i = para(d, m); para_text(*store, i); stops(d, i); inside(*store, i, if char_offset < d[i].1.len() { char_offset as int } else { d[i].1.len() as int }); }
}
//@ end
pub proof fn stops(d: Paras, i: int) requires 0 <= i < d.len(), ensures stop(d, i) == start(d, i) + d[i].1.len(), start(d, i) >= 0 { }
pub proof fn inside(s: RopeStore, i: int, k: int)
    requires tidy(s), 0 <= i < doc(s).len(), 0 <= k <= doc(s)[i].1.len(),
    ensures blen(s.rope@.take(start(doc(s), i) + k)) == s.block_offsets.entries@[i].1 + blen(doc(s)[i].1.take(k)), start(doc(s), i) + k <= s.rope@.len(), stop(doc(s), i) <= s.rope@.len(), blen(doc(s)[i].1.take(k)) <= blen(doc(s)[i].1),
{
    has_doc(s); para_text(s, i);
    let d = doc(s);
    place(d, i, blen(d[i].1.take(k)) as int, k);
    pre_in(d, i);
}
//@ fn crates/common/src/database/rope_helpers.rs rope_flat_text_if_simple
requires tidy(*store),
ensures
    r is Some <==> top_frame_count == 1 && n_anchors(store.block_offsets.entries@) == 0,
    r is Some ==> r->Some_0@ == join(doc(*store)),
//@ ret r
//@ rw store.rope.read().unwrap().to_string() => store.rope.text()
//@ top
has_doc(*store);
//@ end

// ---- edits
pub open spec fn set_para(d: Paras, i: int, t: Seq<char>) -> Paras { d.update(i, (d[i].0, t)) }
pub proof fn para_set(s: RopeStore, s2: RopeStore, i: int, a: int, b: int, t: Seq<char>, threshold: u32, delta: int)
    requires
        tidy(s), 0 <= i < doc(s).len(), 0 <= a <= b <= doc(s)[i].1.len(),
        s2.rope@ == splice(s.rope@, start(doc(s), i) + a, start(doc(s), i) + b, t),
        delta == blen(t) - blen(doc(s)[i].1.subrange(a, b)), fits(blen(s.rope@) + delta),
        s.block_offsets.entries@[i].1 < threshold, i + 1 < doc(s).len() ==> threshold <= s.block_offsets.entries@[i + 1].1,
        shifted(s.block_offsets.entries@, s2.block_offsets.entries@, threshold, delta), s2.block_offsets.total_bytes == s.block_offsets.total_bytes + delta, wf(s2.block_offsets),
    ensures tidy(s2), doc(s2) == set_para(doc(s), i, splice(doc(s)[i].1, a, b, t)),
{
    hide(join); hide(blen); hide(pre); hide(rest); hide(laid); hide(unique); hide(ordered); hide(tidy);
    has_doc(s);
    let d = doc(s); let c = d[i].1; let n = splice(c, a, b, t); let m = seq![(d[i].0, n)];
    one(m[0]); one(d[i]); assert(d.subrange(i, i + 1) =~= seq![d[i]]);
    splice_len(c, a, b, t);
    splice_para(d, i, a, b, t);
    shift_seg(s, s2, i, m, threshold, delta);
    changed(s, s2, i, i + 1, m);
    assert(swap(d, i, i + 1, m) =~= set_para(d, i, n));
}
pub proof fn splice_twice(c: Seq<char>, a: int, b: int, t: Seq<char>)
    requires 0 <= a <= b <= c.len(),
    ensures splice(splice(c, a, b, Seq::<char>::empty()), a, a, t) == splice(c, a, b, t),
{ assert(splice(splice(c, a, b, Seq::<char>::empty()), a, a, t) =~= splice(c, a, b, t)); }
pub proof fn splice_len(c: Seq<char>, a: int, b: int, t: Seq<char>)
    requires 0 <= a <= b <= c.len(),
    ensures blen(splice(c, a, b, t)) == blen(c) + blen(t) - blen(c.subrange(a, b)),
{
    assert(c =~= c.take(a) + c.subrange(a, b) + c.skip(b));
    blen_add(c.take(a) + c.subrange(a, b), c.skip(b)); blen_add(c.take(a), c.subrange(a, b));
    blen_add(c.take(a) + t, c.skip(b)); blen_add(c.take(a), t);
}
pub proof fn splice_para(d: Paras, i: int, a: int, b: int, t: Seq<char>)
    requires 0 <= i < d.len(), 0 <= a <= b <= d[i].1.len(),
    ensures splice(join(d), start(d, i) + a, start(d, i) + b, t) == pre(d, i) + splice(d[i].1, a, b, t) + rest(d, i + 1),
{
    hide(pre); hide(blen); hide(rest);
    around(d, i, i + 1); assert(d.subrange(i, i + 1) =~= seq![d[i]]); one(d[i]);
    splice_mid(pre(d, i), d[i].1, rest(d, i + 1), a, b, t);
}
pub proof fn splice_mid(p: Seq<char>, c: Seq<char>, z: Seq<char>, a: int, b: int, t: Seq<char>)
    requires 0 <= a <= b <= c.len(),
    ensures splice(p + c + z, p.len() + a, p.len() + b, t) == p + splice(c, a, b, t) + z,
{
    let f = p + c + z;
    assert(f.take(p.len() + a) =~= p + c.take(a));
    assert(f.skip(p.len() + b) =~= c.skip(b) + z);
    assert((p + c.take(a)) + t + (c.skip(b) + z) =~= p + (c.take(a) + t + c.skip(b)) + z);
}
/// the entries after a change in paragraph i alone
pub open spec fn seg(d: Paras, e: Entries, e2: Entries, i: int, j: int, m: Paras) -> bool {
    &&& e2.len() == i + m.len() + d.len() - j
    &&& forall|k: int| 0 <= k < i ==> #[trigger] e2[k] == e[k]
    &&& forall|k: int| i <= k < i + m.len() ==> (#[trigger] e2[k]).0 == m[k - i].0 && e2[k].1 == blen(pre(d, i)) + blen(pre(m, k - i))
    &&& forall|k: int| i + m.len() <= k < e2.len() ==> (#[trigger] e2[k]).0 == e[k + j - i - m.len()].0 && e2[k].1 == e[k + j - i - m.len()].1 + blen(join(m)) - blen(join(d.subrange(i, j)))
}
pub proof fn shift_seg(s: RopeStore, s2: RopeStore, i: int, m: Paras, threshold: u32, delta: int)
    requires
        tidy(s), 0 <= i < doc(s).len(), m.len() == 1, m[0].0 == doc(s)[i].0, delta == blen(m[0].1) - blen(doc(s)[i].1),
        s.block_offsets.entries@[i].1 < threshold, i + 1 < doc(s).len() ==> threshold <= s.block_offsets.entries@[i + 1].1,
        shifted(s.block_offsets.entries@, s2.block_offsets.entries@, threshold, delta),
    ensures seg(doc(s), s.block_offsets.entries@, s2.block_offsets.entries@, i, i + 1, m),
{
    has_doc(s);
    let d = doc(s); let (e, e2) = (s.block_offsets.entries@, s2.block_offsets.entries@);
    assert(m =~= seq![m[0]]); one(m[0]); one(d[i]); assert(d.subrange(i, i + 1) =~= seq![d[i]]);
    assert forall|k: int| 0 <= k < i implies #[trigger] e2[k] == e[k] by { assert(e[k].1 < e[i].1); assert(moved(e[k], e2[k], 0)); }
    assert(moved(e[i], e2[i], 0));
    assert(e[i].0 == d[i].0);
    assert forall|k: int| i + 1 <= k < e2.len() implies (#[trigger] e2[k]).0 == e[k].0 && e2[k].1 == e[k].1 + delta by {
        if i + 1 < k { assert(e[i + 1].1 < e[k].1); } assert(moved(e[k], e2[k], delta));
    }
}
/// the store after paragraphs i..j have become m
pub proof fn changed(s: RopeStore, s2: RopeStore, i: int, j: int, m: Paras)
    requires
        tidy(s), 0 <= i < j <= doc(s).len(), m.len() > 0,
        s2.rope@ == pre(doc(s), i) + join(m) + rest(doc(s), j),
        seg(doc(s), s.block_offsets.entries@, s2.block_offsets.entries@, i, j, m),
        s2.block_offsets.total_bytes == s.block_offsets.total_bytes + blen(join(m)) - blen(join(doc(s).subrange(i, j))), wf(s2.block_offsets), s2.block_offsets.total_bytes <= 0x7fff_fff0,
    ensures tidy(s2), doc(s2) == swap(doc(s), i, j, m), shows(s2, swap(doc(s), i, j, m)),
{
    has_doc(s);
    let d = doc(s);
    relay(d, s.block_offsets.entries@, i, j, m, s2.block_offsets.entries@);
    around(d, i, j);
    blen_add(pre(d, i) + join(m), rest(d, j)); blen_add(pre(d, i), join(m));
    is_doc(s2, swap(d, i, j, m));
}
/// what shift_after needs
pub proof fn can_shift(s: RopeStore, i: int, threshold: u32, delta: int, gone: int)
    requires
        tidy(s), 0 <= i < doc(s).len(), 0 <= gone <= blen(doc(s)[i].1), delta + gone >= 0, fits(blen(s.rope@) + delta),
        s.block_offsets.entries@[i].1 < threshold, i + 1 < doc(s).len() ==> threshold <= s.block_offsets.entries@[i + 1].1,
    ensures ordered(s.block_offsets), shiftable(s.block_offsets.entries@, s.block_offsets.total_bytes, threshold, delta), 0 <= s.block_offsets.total_bytes + delta <= u32::MAX,
{
    has_doc(s);
    let d = doc(s); let e = s.block_offsets.entries@;
    para_text(s, i);
    assert forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 >= threshold implies e[k].1 + delta >= 0 && k > i && e[k].1 + delta > e[i].1 by {
        if k < i { assert(e[k].1 < e[i].1); } if i + 1 < k { assert(e[i + 1].1 < e[k].1); }
    }
    assert forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 < threshold implies k <= i && e[k].1 <= e[i].1 by { if i + 1 < k { assert(e[i + 1].1 < e[k].1); } if k < i { assert(e[k].1 < e[i].1); } }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_insert_in_block
requires
    tidy(*old(store)), fits((blen(old(store).rope@) + blen(text@)) as int),
    names(doc(*old(store)), OffsetMarker::Block(block_id)) ==> on_char(doc(*old(store))[para(doc(*old(store)), OffsetMarker::Block(block_id))].1, byte_offset_in_block as int),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    ({
        let d = doc(*old(store)); let i = para(d, OffsetMarker::Block(block_id)); let k = char_of(d[i].1, byte_offset_in_block as int);
        doc(*final(store)) == if names(d, OffsetMarker::Block(block_id)) { set_para(d, i, splice(d[i].1, k, k, text@)) } else { d }
    }),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop);
let ghost s0 = *store; let ghost m = OffsetMarker::Block(block_id); let ghost d = doc(s0); let ghost i = para(d, m); let ghost k = char_of(d[i].1, byte_offset_in_block as int);
proof {
para_is(s0, m); lens(s0);
if names(d, m) {
    para_text(s0, i); place_in(s0, i, byte_offset_in_block as int, k);
    if blen(text@) == 0 { blen_ge(text@); assert(splice(d[i].1, k, k, text@) =~= d[i].1); assert(set_para(d, i, d[i].1) =~= d); }
    else { can_shift(s0, i, (s0.block_offsets.entries@[i].1 + 1) as u32, blen(text@) as int, 0); }
    assert(d[i].1.subrange(k, k) =~= Seq::<char>::empty()); assert(blen(d[i].1.subrange(k, k)) == 0);
}
}
//@ bottom
para_set(s0, *store, i, k, k, text@, (s0.block_offsets.entries@[i].1 + 1) as u32, blen(text@) as int);
//@ end
pub proof fn place_in(s: RopeStore, i: int, b: int, k: int)
    requires tidy(s), 0 <= i < doc(s).len(), at(doc(s)[i].1, b, k),
    ensures at(s.rope@, s.block_offsets.entries@[i].1 + b, start(doc(s), i) + k), 0 <= b <= blen(doc(s)[i].1),
{ has_doc(s); para_text(s, i); place(doc(s), i, b, k); }
//@ fn crates/common/src/database/rope_helpers.rs rope_delete_in_block
requires
    tidy(*old(store)),
    names(doc(*old(store)), OffsetMarker::Block(block_id)) && byte_start_in_block < byte_end_in_block ==> {
        let t = doc(*old(store))[para(doc(*old(store)), OffsetMarker::Block(block_id))].1; on_char(t, byte_start_in_block as int) && on_char(t, byte_end_in_block as int) },
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    ({
        let d = doc(*old(store)); let i = para(d, OffsetMarker::Block(block_id)); let a = char_of(d[i].1, byte_start_in_block as int); let b = char_of(d[i].1, byte_end_in_block as int);
        doc(*final(store)) == if names(d, OffsetMarker::Block(block_id)) && byte_start_in_block < byte_end_in_block { set_para(d, i, splice(d[i].1, a, b, Seq::<char>::empty())) } else { d }
    }),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop);
let ghost s0 = *store; let ghost m = OffsetMarker::Block(block_id); let ghost d = doc(s0); let ghost i = para(d, m);
let ghost a = char_of(d[i].1, byte_start_in_block as int); let ghost b = char_of(d[i].1, byte_end_in_block as int);
proof {
para_is(s0, m); lens(s0);
if names(d, m) && byte_start_in_block < byte_end_in_block {
    para_text(s0, i); place_in(s0, i, byte_start_in_block as int, a); place_in(s0, i, byte_end_in_block as int, b);
    if b <= a { blen_mono(d[i].1, b, a); } else { blen_mono(d[i].1, a, b); }
    can_shift(s0, i, (s0.block_offsets.entries@[i].1 + 1) as u32, byte_start_in_block - byte_end_in_block, byte_end_in_block - byte_start_in_block);
}
assert(blen(Seq::<char>::empty()) == 0);
}
//@ bottom
para_set(s0, *store, i, a, b, Seq::<char>::empty(), (s0.block_offsets.entries@[i].1 + 1) as u32, byte_start_in_block - byte_end_in_block);
//@ end
//@ fn crates/common/src/database/rope_helpers.rs rope_replace_block_content
requires tidy(*old(store)), fits((blen(old(store).rope@) + blen(new_text@)) as int),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == if names(doc(*old(store)), OffsetMarker::Block(block_id)) { set_para(doc(*old(store)), para(doc(*old(store)), OffsetMarker::Block(block_id)), new_text@) } else { doc(*old(store)) },
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop);
let ghost s0 = *store; let ghost m = OffsetMarker::Block(block_id); let ghost d = doc(s0); let ghost i = para(d, m); let ghost n = d[i].1.len() as int;
proof {
para_is(s0, m); lens(s0);
if names(d, m) {
    para_text(s0, i); stops(d, i); inside(s0, i, 0); inside(s0, i, n);
    assert(d[i].1.subrange(0, n) =~= d[i].1); assert(splice(d[i].1, 0, n, new_text@) =~= new_text@);
    assert(blen(d[i].1) == 0 ==> n == 0) by { blen_ge(d[i].1); }
    if blen(new_text@) == 0 && blen(d[i].1) == 0 { blen_ge(new_text@); blen_ge(d[i].1); assert(new_text@ =~= d[i].1); assert(set_para(d, i, d[i].1) =~= d); }
    can_shift(s0, i, (s0.block_offsets.entries@[i].1 + 1) as u32, blen(new_text@) - blen(d[i].1), blen(d[i].1) as int);
}
}
//@ bottom
splice_twice(s0.rope@, start(d, i), start(d, i) + n, new_text@);
if blen(new_text@) == 0 { blen_ge(new_text@); assert(new_text@ =~= Seq::<char>::empty()); }
para_set(s0, *store, i, 0, n, new_text@, (s0.block_offsets.entries@[i].1 + 1) as u32, blen(new_text@) - blen(d[i].1));
//@ end
pub proof fn shifted_markers(e: Entries, e2: Entries, threshold: u32, delta: int)
    requires shifted(e, e2, threshold, delta),
    ensures forall|m: OffsetMarker| holds(e2, m) ==> #[trigger] holds(e, m), forall|m: OffsetMarker| holds(e, m) ==> #[trigger] holds(e2, m),
{
    assert forall|m: OffsetMarker| holds(e2, m) implies #[trigger] holds(e, m) by { let i = choose|i: int| 0 <= i < e2.len() && (#[trigger] e2[i]).0 == m; assert(moved(e[i], e2[i], if e[i].1 >= threshold { delta } else { 0 })); assert(e[i].0 == m); }
    assert forall|m: OffsetMarker| holds(e, m) implies #[trigger] holds(e2, m) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == m; assert(moved(e[i], e2[i], if e[i].1 >= threshold { delta } else { 0 })); assert(e2[i].0 == m); }
}
/// paragraph i cut in two at k
pub open spec fn cut(d: Paras, i: int, k: int, m: OffsetMarker) -> Paras { seq![(d[i].0, d[i].1.take(k)), (m, d[i].1.skip(k))] }
pub proof fn para_cut(s: RopeStore, s1: RopeStore, s2: RopeStore, i: int, k: int, m: OffsetMarker, threshold: u32)
    requires
        tidy(s), 0 <= i < doc(s).len(), 0 <= k <= doc(s)[i].1.len(), fits((blen(s.rope@) + 1) as int),
        s2.rope@ == splice(s.rope@, start(doc(s), i) + k, start(doc(s), i) + k, seq!['\n']),
        threshold == s.block_offsets.entries@[i].1 + blen(doc(s)[i].1.take(k)) + 1,
        shifted(s.block_offsets.entries@, s1.block_offsets.entries@, threshold, 1),
        s2.block_offsets.entries@ == s1.block_offsets.entries@.insert(i + 1, (m, threshold)),
        s2.block_offsets.total_bytes == s.block_offsets.total_bytes + 1, wf(s2.block_offsets),
    ensures tidy(s2), doc(s2) == swap(doc(s), i, i + 1, cut(doc(s), i, k, m)),
{
    hide(join); hide(blen); hide(pre); hide(rest); hide(unique); hide(ordered); hide(tidy);
    has_doc(s);
    let d = doc(s); let c = d[i].1; let n = cut(d, i, k, m);
    let (e, e1, e2) = (s.block_offsets.entries@, s1.block_offsets.entries@, s2.block_offsets.entries@);
    two(n[0], n[1]); assert(n =~= seq![n[0], n[1]]); one(d[i]); assert(d.subrange(i, i + 1) =~= seq![d[i]]);
    splice_para(d, i, k, k, seq!['\n']);
    assert(splice(c, k, k, seq!['\n']) =~= join(n));
    assert(c =~= c.take(k) + c.skip(k)); blen_add(c.take(k), c.skip(k)); blen_push(c.take(k), '\n'); blen_add(c.take(k).push('\n'), c.skip(k));
    blen_ge(Seq::<char>::empty());
    para_text(s, i); blen_mono(c, k, k);
    assert(e[i].0 == d[i].0);
    assert forall|q: int| 0 <= q < i implies #[trigger] e2[q] == e[q] by { starts_up(d, q, i); assert(e[q].0 == d[q].0); assert(moved(e[q], e1[q], 0)); }
    assert(moved(e[i], e1[i], 0));
    assert forall|q: int| i + 2 <= q < e2.len() implies (#[trigger] e2[q]).0 == e[q - 1].0 && e2[q].1 == e[q - 1].1 + 1 by { starts_up(d, i, q - 1); assert(e[q - 1].0 == d[q - 1].0); assert(moved(e[q - 1], e1[q - 1], 1)); }
    changed(s, s2, i, i + 1, n);
}
//@ fn crates/common/src/database/rope_helpers.rs rope_split_block
requires
    tidy(*old(store)), fits((blen(old(store).rope@) + 1) as int),
    names(doc(*old(store)), OffsetMarker::Block(current_block_id)) ==> !names(doc(*old(store)), OffsetMarker::Block(new_block_id)) && on_char(doc(*old(store))[para(doc(*old(store)), OffsetMarker::Block(current_block_id))].1, byte_offset_in_block as int),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    ({
        let d = doc(*old(store)); let i = para(d, OffsetMarker::Block(current_block_id)); let k = char_of(d[i].1, byte_offset_in_block as int);
        doc(*final(store)) == if names(d, OffsetMarker::Block(current_block_id)) { swap(d, i, i + 1, cut(d, i, k, OffsetMarker::Block(new_block_id))) } else { d }
    }),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop);
let ghost s0 = *store; let ghost m = OffsetMarker::Block(current_block_id); let ghost d = doc(s0); let ghost i = para(d, m); let ghost k = char_of(d[i].1, byte_offset_in_block as int);
proof {
reveal_strlit("\n");
para_is(s0, m); lens(s0); para_is(s0, OffsetMarker::Block(new_block_id));
if names(d, m) {
    para_text(s0, i); place_in(s0, i, byte_offset_in_block as int, k); stops(d, i);
    can_shift(s0, i, (s0.block_offsets.entries@[i].1 + byte_offset_in_block + 1) as u32, 1, 0);
}
}
//@ before insert_at 0
//raw let ghost s1 = *store;
proof { shifted_markers(s0.block_offsets.entries@, s1.block_offsets.entries@, (split_byte + 1) as u32, 1); }
//@ bottom
assert("\n"@ =~= seq!['\n']);
para_cut(s0, s1, *store, i, k, OffsetMarker::Block(new_block_id), (split_byte + 1) as u32);
//@ end
/// the head of paragraph i and the tail of paragraph j as one paragraph
pub open spec fn fused(d: Paras, i: int, k: int, j: int, l: int) -> Paras { seq![(d[i].0, d[i].1.take(k) + d[j].1.skip(l))] }
pub proof fn splice_paras(d: Paras, i: int, k: int, j: int, l: int)
    requires 0 <= i < j < d.len(), 0 <= k <= d[i].1.len(), 0 <= l <= d[j].1.len(),
    ensures
        splice(join(d), start(d, i) + k, start(d, j) + l, Seq::<char>::empty()) == pre(d, i) + (d[i].1.take(k) + d[j].1.skip(l)) + rest(d, j + 1),
        blen(join(d.subrange(i, j + 1))) == blen(d[i].1.take(k)) + (blen(pre(d, j)) + blen(d[j].1.take(l)) - blen(pre(d, i)) - blen(d[i].1.take(k))) + blen(d[j].1.skip(l)),
{
    hide(blen); hide(rest); hide(pre);
    let w = d.subrange(i, j + 1);
    around(d, i, j + 1); before(d, i, j);
    assert(w.len() == j + 1 - i); assert(w.last() == d[j]);
    assert(pre(d, j) == pre(d, i) + pre(w, j - i));
    assert(join(w) == pre(w, j - i) + d[j].1);
    let b = pre(w, j - i).len() as int;
    assert(w[0] == d[i]); pre_in(w, 0);
    assert(w.take(1) =~= seq![d[i]]);
    assert(pre(w, 0) == Seq::<char>::empty()) by { reveal(pre); }
    assert(join(w).subrange(0, d[i].1.len() as int) == d[i].1);
    assert(join(w).take(k) =~= d[i].1.take(k)) by { assert(join(w).take(k) =~= join(w).subrange(0, d[i].1.len() as int).take(k)); }
    assert(join(w).skip(b + l) =~= d[j].1.skip(l));
    splice_mid(pre(d, i), join(w), rest(d, j + 1), k, b + l, Seq::<char>::empty());
    assert(splice(join(w), k, b + l, Seq::<char>::empty()) =~= d[i].1.take(k) + d[j].1.skip(l));
    assert(start(d, j) == start(d, i) + b);
    blen_add(pre(d, i), pre(w, j - i)); blen_add(pre(w, j - i), d[j].1);
    assert(d[j].1 =~= d[j].1.take(l) + d[j].1.skip(l)); blen_add(d[j].1.take(l), d[j].1.skip(l));
}
pub proof fn para_fused(s: RopeStore, s1: RopeStore, s2: RopeStore, i: int, k: int, j: int, l: int, threshold: u32, gone: int)
    requires
        tidy(s), 0 <= i < j < doc(s).len(), 0 <= k <= doc(s)[i].1.len(), 0 <= l <= doc(s)[j].1.len(),
        s2.rope@ == splice(s.rope@, start(doc(s), i) + k, start(doc(s), j) + l, Seq::<char>::empty()),
        gone == s.block_offsets.entries@[j].1 + blen(doc(s)[j].1.take(l)) - s.block_offsets.entries@[i].1 - blen(doc(s)[i].1.take(k)),
        threshold == s.block_offsets.entries@[i].1 + blen(doc(s)[i].1.take(k)) + 1,
        s1.block_offsets.entries@ == s.block_offsets.entries@.take(i + 1) + s.block_offsets.entries@.skip(j + 1),
        shifted(s1.block_offsets.entries@, s2.block_offsets.entries@, threshold, -gone),
        s2.block_offsets.total_bytes == s.block_offsets.total_bytes - gone, wf(s2.block_offsets),
    ensures tidy(s2), doc(s2) == swap(doc(s), i, j + 1, fused(doc(s), i, k, j, l)),
{
    hide(join); hide(blen); hide(pre); hide(rest); hide(unique); hide(ordered); hide(tidy);
    has_doc(s);
    let d = doc(s); let n = fused(d, i, k, j, l);
    let (e, e1, e2) = (s.block_offsets.entries@, s1.block_offsets.entries@, s2.block_offsets.entries@);
    one(n[0]);
    splice_paras(d, i, k, j, l);
    blen_add(d[i].1.take(k), d[j].1.skip(l));
    assert(e[i].0 == d[i].0); assert(e[j].0 == d[j].0);
    fuse_room(s, i, k, j, l); blen_ge(Seq::<char>::empty());
    assert forall|q: int| 0 <= q < i implies #[trigger] e2[q] == e[q] by { starts_up(d, q, i); assert(e[q].0 == d[q].0); assert(e1[q] == e[q]); assert(moved(e1[q], e2[q], 0)); }
    assert(e1[i] == e[i]); assert(moved(e1[i], e2[i], 0));
    assert forall|q: int| i + 1 <= q < e2.len() implies (#[trigger] e2[q]).0 == e[q + j - i].0 && e2[q].1 == e[q + j - i].1 - gone by { starts_up(d, j, q + j - i); assert(e[q + j - i].0 == d[q + j - i].0); assert(e1[q] == e[q + j - i]); assert(moved(e1[q], e2[q], -gone)); }
    changed(s, s2, i, j + 1, n);
}
pub proof fn fuse_room(s: RopeStore, i: int, k: int, j: int, l: int)
    requires tidy(s), 0 <= i < j < doc(s).len(), 0 <= k <= doc(s)[i].1.len(), 0 <= l <= doc(s)[j].1.len(),
    ensures ({
        let e = s.block_offsets.entries@; let d = doc(s); let from = e[i].1 + blen(d[i].1.take(k)); let to = e[j].1 + blen(d[j].1.take(l));
        &&& from < to && to <= blen(s.rope@) && start(d, i) + k < start(d, j) + l <= s.rope@.len()
        &&& forall|q: int| j < q < e.len() ==> (#[trigger] e[q]).1 > to
        &&& forall|q: int| 0 <= q <= i ==> (#[trigger] e[q]).1 <= from
        &&& at(s.rope@, from as int, start(d, i) + k) && at(s.rope@, to as int, start(d, j) + l)
        &&& fits(blen(s.rope@) as int) && s.block_offsets.total_bytes == blen(s.rope@)
    }),
{
    has_doc(s);
    let d = doc(s); let e = s.block_offsets.entries@;
    assert(e[i].0 == d[i].0); assert(e[j].0 == d[j].0);
    starts_up(d, i, j); starts_up(d, j, j);
    inside(s, i, k); inside(s, j, l); pre_in(d, j); pre_in(d, i);
    place(d, i, blen(d[i].1.take(k)) as int, k); place(d, j, blen(d[j].1.take(l)) as int, l);
    before(d, i, j);
    assert forall|q: int| j < q < e.len() implies (#[trigger] e[q]).1 > e[j].1 + blen(d[j].1.take(l)) by { starts_up(d, j, q); assert(e[q].0 == d[q].0); }
    assert forall|q: int| 0 <= q <= i implies (#[trigger] e[q]).1 <= e[i].1 + blen(d[i].1.take(k)) by { starts_up(d, q, i); assert(e[q].0 == d[q].0); }
}
pub proof fn fuse_shift(s: RopeStore, s1: RopeStore, i: int, k: int, j: int, l: int, threshold: u32, gone: int)
    requires
        tidy(s), 0 <= i < j < doc(s).len(), 0 <= k <= doc(s)[i].1.len(), 0 <= l <= doc(s)[j].1.len(),
        gone == s.block_offsets.entries@[j].1 + blen(doc(s)[j].1.take(l)) - s.block_offsets.entries@[i].1 - blen(doc(s)[i].1.take(k)),
        threshold == s.block_offsets.entries@[i].1 + blen(doc(s)[i].1.take(k)) + 1,
        s1.block_offsets.entries@ == s.block_offsets.entries@.take(i + 1) + s.block_offsets.entries@.skip(j + 1), s1.block_offsets.total_bytes == s.block_offsets.total_bytes,
    ensures ordered(s1.block_offsets), shiftable(s1.block_offsets.entries@, s1.block_offsets.total_bytes, threshold, -gone),
{
    hide(tidy); hide(shows); hide(blen);
    has_doc(s); fuse_room(s, i, k, j, l);
    let (e, e1) = (s.block_offsets.entries@, s1.block_offsets.entries@);
    assert forall|q: int| 0 <= q < e1.len() implies #[trigger] e1[q] == if q <= i { e[q] } else { e[q + j - i] } by { }
    assert forall|p: int, q: int| 0 <= p < q < e1.len() implies (#[trigger] e1[p]).1 < (#[trigger] e1[q]).1 by { assert(e[if p <= i { p } else { p + j - i }].1 < e[if q <= i { q } else { q + j - i }].1); }
    assert forall|q: int| 0 <= q < e1.len() implies (#[trigger] e1[q]).1 <= s1.block_offsets.total_bytes by { assert(e[if q <= i { q } else { q + j - i }].1 <= s.block_offsets.total_bytes); }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_merge_block_range
requires
    tidy(*old(store)),
    ({ let d = doc(*old(store)); let (a, b) = (OffsetMarker::Block(start_block_id), OffsetMarker::Block(end_block_id));
        names(d, a) && names(d, b) && para(d, a) < para(d, b) ==> on_char(d[para(d, a)].1, byte_so_in_start as int) && on_char(d[para(d, b)].1, byte_eo_in_end as int) }),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    ({
        let d = doc(*old(store)); let (a, b) = (OffsetMarker::Block(start_block_id), OffsetMarker::Block(end_block_id)); let (i, j) = (para(d, a), para(d, b));
        doc(*final(store)) == if names(d, a) && names(d, b) && i < j { swap(d, i, j + 1, fused(d, i, char_of(d[i].1, byte_so_in_start as int), j, char_of(d[j].1, byte_eo_in_end as int))) } else { d }
    }),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop);
let ghost s0 = *store; let ghost d = doc(s0); let ghost (a, b) = (OffsetMarker::Block(start_block_id), OffsetMarker::Block(end_block_id)); let ghost (i, j) = (para(d, a), para(d, b));
let ghost k = char_of(d[i].1, byte_so_in_start as int); let ghost l = char_of(d[j].1, byte_eo_in_end as int);
proof {
para_is(s0, a); para_is(s0, b); lens(s0);
if names(d, a) { para_text(s0, i); }
if names(d, b) { para_text(s0, j); }
if names(d, a) && names(d, b) && i < j { fuse_room(s0, i, k, j, l); }
}
//@ before shift_after 0
//raw let ghost s1 = *store;
proof { fuse_shift(s0, s1, i, k, j, l, (delete_start + 1) as u32, deleted_bytes as int); }
//@ bottom
para_fused(s0, s1, *store, i, k, j, l, (delete_start + 1) as u32, deleted_bytes as int);
//@ end

// ---- paragraphs and tables coming and going
/// where paragraph q stands once x is put at i
pub proof fn put_start(n: Paras, i: int, x: (OffsetMarker, Seq<char>), q: int)
    requires 0 <= i <= n.len(), 0 <= q <= n.len(),
    ensures
        q <= i ==> pre(n.insert(i, x), q) == pre(n, q),
        q >= i ==> blen(pre(n.insert(i, x), q + 1)) == blen(pre(n, q)) + blen(x.1) + 1 && pre(n.insert(i, x), q + 1).len() == pre(n, q).len() + x.1.len() + 1,
{
    let (a, z) = (n.take(i), n.skip(i)); let m = seq![x];
    assert(n =~= a + z); assert(n.insert(i, x) =~= a + (m + z));
    one(x);
    if q <= i { pre_cat(a, m + z, q); pre_cat(a, z, q); }
    if q >= i {
        pre_add(a, m + z, q + 1 - i); pre_add(m, z, q - i); pre_add(a, z, q - i);
        blen_add(pre(a, i), pre(m + z, q + 1 - i)); blen_add(pre(m, 1), pre(z, q - i)); blen_add(pre(a, i), pre(z, q - i)); blen_push(x.1, '\n');
        assert(m.len() + (q - i) == q + 1 - i);
    }
}
pub proof fn wedge(p: Seq<char>, t: Seq<char>, k: Seq<char>)
    ensures splice(p + k, p.len() as int, p.len() as int, t) == p + t + k, splice(p + t + k, p.len() as int, (p.len() + t.len()) as int, Seq::<char>::empty()) == p + k, blen(p + t + k) == blen(p + k) + blen(t),
{
    assert((p + k).take(p.len() as int) =~= p); assert((p + k).skip(p.len() as int) =~= k);
    assert((p + t + k).take(p.len() as int) =~= p); assert((p + t + k).skip((p.len() + t.len()) as int) =~= k);
    assert(p + Seq::<char>::empty() + k =~= p + k);
    blen_add(p + t, k); blen_add(p, t); blen_add(p, k);
}
/// the text once x is put before paragraph i
pub proof fn put_before(n: Paras, i: int, x: (OffsetMarker, Seq<char>))
    requires 0 <= i < n.len(),
    ensures
        join(n.insert(i, x)) == splice(join(n), start(n, i), start(n, i), x.1.push('\n')),
        join(n) == splice(join(n.insert(i, x)), start(n, i), start(n, i) + x.1.len() + 1, Seq::<char>::empty()),
        blen(join(n.insert(i, x))) == blen(join(n)) + blen(x.1) + 1,
{
    hide(blen); hide(splice);
    let (a, z) = (n.take(i), n.skip(i)); let m = seq![x];
    assert(n =~= a + z); assert(n.insert(i, x) =~= a + (m + z));
    one(x); pre_cat(a, z, i); join_add(a, m + z);
    join_add(m, z); join_add(a, z);
    let (p, t, j) = (pre(a, i), x.1.push('\n'), join(z));
    assert(join(n.insert(i, x)) =~= p + t + j); assert(join(n) =~= p + j);
    wedge(p, t, j); blen_push(x.1, '\n');
}
/// the text once x is put behind paragraph i - 1
pub proof fn put_after(n: Paras, i: int, x: (OffsetMarker, Seq<char>))
    requires 0 < i <= n.len(),
    ensures
        join(n.insert(i, x)) == splice(join(n), stop(n, i - 1), stop(n, i - 1), seq!['\n'] + x.1),
        join(n) == splice(join(n.insert(i, x)), stop(n, i - 1), stop(n, i - 1) + x.1.len() + 1, Seq::<char>::empty()),
        blen(join(n.insert(i, x))) == blen(join(n)) + blen(x.1) + 1,
        i == n.len() ==> stop(n, i - 1) == join(n).len() && blen(pre(n, i)) == blen(join(n)) + 1,
        start(n, i) == stop(n, i - 1) + 1,
{
    hide(blen); hide(splice);
    let (a, z) = (n.take(i), n.skip(i)); let m = seq![x];
    assert(n =~= a + z); assert(n.insert(i, x) =~= a + (m + z));
    one(x); pre_cat(a, z, i); join_add(a, m + z);
    let (g, t) = (join(a), seq!['\n'] + x.1); let k = rest(n, i);
    around(n, 0, i); assert(n.subrange(0, i) =~= a); assert(pre(n, 0) =~= Seq::<char>::empty()); assert(join(n) =~= g + k);
    assert(a.last() == n[i - 1]); pre_cat(a, z, i - 1);
    assert(g.len() == stop(n, i - 1));
    put_after_text(a, m, z, x);
    wedge(g, t, k);
    blen_add(seq!['\n'], x.1); blen_one('\n');
    blen_push(g, '\n');
}
pub proof fn put_after_text(a: Paras, m: Paras, z: Paras, x: (OffsetMarker, Seq<char>))
    requires a.len() > 0, m == seq![x],
    ensures join(a + (m + z)) == join(a) + (seq!['\n'] + x.1) + if z.len() == 0 { seq![] } else { seq!['\n'] + join(z) }, rest(a + z, a.len() as int) == if z.len() == 0 { seq![] } else { seq!['\n'] + join(z) },
{
    one(x); join_add(a, m + z); assert((a + z).skip(a.len() as int) =~= z);
    assert(join(m) == x.1);
    if z.len() > 0 {
        join_add(m, z);
        assert(join(a + (m + z)) =~= join(a) + (seq!['\n'] + x.1) + (seq!['\n'] + join(z)));
    } else {
        assert(m + z =~= m);
        assert(join(a + (m + z)) =~= join(a) + (seq!['\n'] + x.1) + seq![]);
    }
}
/// x stands at i
pub proof fn put_in(s: RopeStore, e1: Entries, s2: RopeStore, i: int, x: (OffsetMarker, Seq<char>), threshold: u32, at: u32)
    requires
        tidy(s), 0 <= i <= doc(s).len(), doc(s).len() > 0, s2.rope@ == join(doc(s).insert(i, x)), fits((blen(s.rope@) + blen(x.1) + 1) as int),
        forall|q: int| 0 <= q < i ==> (#[trigger] s.block_offsets.entries@[q]).1 < threshold,
        forall|q: int| i <= q < doc(s).len() ==> (#[trigger] s.block_offsets.entries@[q]).1 >= threshold,
        shifted(s.block_offsets.entries@, e1, threshold, (blen(x.1) + 1) as int),
        at == blen(pre(doc(s), i)),
        s2.block_offsets.entries@ == e1.insert(i, (x.0, at)),
        s2.block_offsets.total_bytes == s.block_offsets.total_bytes + blen(x.1) + 1, wf(s2.block_offsets),
    ensures tidy(s2), doc(s2) == doc(s).insert(i, x), shows(s2, doc(s).insert(i, x)),
{
    hide(join); hide(blen); hide(pre); hide(rest); hide(unique); hide(ordered); hide(tidy);
    has_doc(s);
    let d = doc(s); let n = d.insert(i, x);
    let (e, e2) = (s.block_offsets.entries@, s2.block_offsets.entries@);
    if i < d.len() { put_before(d, i, x); } else { put_after(d, i, x); }
    assert forall|q: int| 0 <= q < n.len() implies (#[trigger] e2[q]).0 == n[q].0 && e2[q].1 == blen(pre(n, q)) by {
        if q < i { put_start(d, i, x, q); assert(moved(e[q], e1[q], 0)); assert(e2[q] == e1[q]); assert(e[q].0 == d[q].0); }
        else if q == i { put_start(d, i, x, q); }
        else { put_start(d, i, x, q - 1); assert(e2[q] == e1[q - 1]); assert(moved(e[q - 1], e1[q - 1], (blen(x.1) + 1) as int)); assert(e[q - 1].0 == d[q - 1].0); }
    }
    is_doc(s2, n);
}
/// what shift_after needs when x is put at i
pub proof fn can_put(s: RopeStore, i: int, threshold: u32, delta: int)
    requires
        tidy(s), 0 <= i <= doc(s).len(), delta >= 0, fits(blen(s.rope@) + delta),
        forall|q: int| 0 <= q < i ==> (#[trigger] s.block_offsets.entries@[q]).1 < threshold,
        forall|q: int| i <= q < doc(s).len() ==> (#[trigger] s.block_offsets.entries@[q]).1 >= threshold,
    ensures ordered(s.block_offsets), shiftable(s.block_offsets.entries@, s.block_offsets.total_bytes, threshold, delta), 0 <= s.block_offsets.total_bytes + delta <= u32::MAX,
{ has_doc(s); }
/// the starts on the two sides of a place between paragraphs
pub proof fn sides(s: RopeStore, i: int)
    requires tidy(s), 0 <= i <= doc(s).len(), doc(s).len() > 0,
    ensures ({
        let d = doc(s); let e = s.block_offsets.entries@;
        &&& i < d.len() ==> e[i].1 == blen(pre(d, i))
        &&& i > 0 ==> e[i - 1].1 + blen(d[i - 1].1) + 1 == blen(pre(d, i))
        &&& blen(pre(d, i)) <= blen(join(d)) + 1 && s.rope@ == join(d)
        &&& forall|q: int| 0 <= q < i ==> (#[trigger] e[q]).1 < blen(pre(d, i))
        &&& forall|q: int| 0 <= q < i ==> (#[trigger] e[q]).1 <= e[i - 1].1
        &&& forall|q: int| i <= q < d.len() ==> (#[trigger] e[q]).1 >= blen(pre(d, i))
    }),
{
    has_doc(s);
    let d = doc(s); let e = s.block_offsets.entries@;
    if i < d.len() { assert(e[i].0 == d[i].0); starts_up(d, i, i); }
    if i > 0 { assert(e[i - 1].0 == d[i - 1].0); starts_up(d, i - 1, i - 1); assert(pre(d, i) == (pre(d, i - 1) + d[i - 1].1).push('\n')); blen_push(pre(d, i - 1) + d[i - 1].1, '\n'); blen_add(pre(d, i - 1), d[i - 1].1); }
    assert forall|q: int| 0 <= q < i implies (#[trigger] e[q]).1 <= e[i - 1].1 by { if q < i - 1 { assert(e[q].1 < e[i - 1].1); } }
    assert forall|q: int| i <= q < d.len() implies (#[trigger] e[q]).1 >= blen(pre(d, i)) by { if q > i { assert(e[i].1 < e[q].1); } }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_reset
ensures tidy(*final(store)), doc(*final(store)) == Seq::<(OffsetMarker, Seq<char>)>::empty(), final(store).blocks == old(store).blocks,
//@ rwtype &Store => &mut RopeStore
//@ rwstmt *store.rope.write().unwrap() = $x; => store.rope = $x;
//@ rwstmt *store.block_offsets.write().unwrap() = $x; => store.block_offsets = $x;
//@ rw ropey::Rope::new() => Rope::new()
//@ rw crate::database::block_offset_index::BlockOffsetIndex::new() => BlockOffsetIndex::new()
//@ bottom
let none = Seq::<(OffsetMarker, Seq<char>)>::empty();
assert(join(none) =~= Seq::<char>::empty());
assert(blen(Seq::<char>::empty()) == 0);
is_doc(*store, none);
//@ end
/// a store with an open separator holds one list of paragraphs
pub proof fn one_open(s: RopeStore, a: Paras)
    requires shows_open(s, a),
    ensures is_open(s), open_doc(s) == a,
{
    let b = open_doc(s);
    assert(shows_open(s, b));
    assert(join(a).push('\n').drop_last() =~= join(a)); assert(join(b).push('\n').drop_last() =~= join(b));
    only_doc(join(a), s.block_offsets.entries@, a, b);
}
pub proof fn has_open(s: RopeStore)
    requires is_open(s),
    ensures shows_open(s, open_doc(s)), s.rope@.len() <= blen(s.rope@), blen(s.rope@) == blen(join(open_doc(s))) + 1, open_doc(s).len() > 0, open_doc(s).len() == s.block_offsets.entries@.len(), s.block_offsets.entries@.len() <= 0x7fff_fff1,
        forall|m: OffsetMarker| holds(s.block_offsets.entries@, m) <==> #[trigger] names(open_doc(s), m),
{
    let d = open_doc(s); let e = s.block_offsets.entries@;
    blen_push(join(d), '\n'); few(d, d.len() as int); blen_ge(s.rope@);
    same_names(d, e);
}
pub proof fn same_names(d: Paras, e: Entries)
    requires laid(d, e),
    ensures forall|m: OffsetMarker| holds(e, m) <==> #[trigger] names(d, m),
{
    assert forall|m: OffsetMarker| holds(e, m) <==> #[trigger] names(d, m) by {
        if holds(e, m) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == m; assert(d[i].0 == m); }
        if names(d, m) { let i = para(d, m); assert(e[i].0 == d[i].0); }
    }
}
/// x is written behind everything
pub proof fn pushed(d: Paras, e: Entries, x: (OffsetMarker, Seq<char>))
    requires laid(d, e), d.len() > 0,
    ensures laid(d.push(x), e.push((x.0, (blen(join(d)) + 1) as u32))) || blen(join(d)) + 1 > u32::MAX, join(d.push(x)) == join(d).push('\n') + x.1,
{
    let n = d.push(x); let at = (blen(join(d)) + 1) as u32; let e2 = e.push((x.0, at));
    assert(n =~= d.insert(d.len() as int, x));
    pre_cat(d, seq![x], d.len() as int); assert(n =~= d + seq![x]); join_add(d, seq![x]); one(x); blen_push(join(d), '\n');
    if blen(join(d)) + 1 <= u32::MAX {
        assert forall|q: int| 0 <= q < n.len() implies (#[trigger] e2[q]).0 == n[q].0 && e2[q].1 == blen(pre(n, q)) by { if q < d.len() { assert(e2[q] == e[q]); pre_cat(d, seq![x], q); } }
    }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_insert_block_boundary
requires tidy(*old(store)), doc(*old(store)).len() > 0, fits((blen(old(store).rope@) + 1) as int),
ensures is_open(*final(store)), open_doc(*final(store)) == doc(*old(store)), final(store).blocks == old(store).blocks, blen(final(store).rope@) == blen(old(store).rope@) + 1,
//@ rwtype &Store => &mut RopeStore
//@ top
//raw let ghost s0 = *store;
proof { reveal_strlit("\n"); has_doc(s0); blen_ge(s0.rope@); assert("\n"@ =~= seq!['\n']); }
//@ bottom
assert(store.rope@ =~= s0.rope@.push('\n')); blen_push(s0.rope@, '\n');
one_open(*store, doc(s0));
//@ end
//@ fn crates/common/src/database/rope_helpers.rs rope_append_block
requires
    is_open(*old(store)) || (tidy(*old(store)) && doc(*old(store)).len() == 0), fits((blen(old(store).rope@) + blen(text@)) as int),
    is_open(*old(store)) ==> !names(open_doc(*old(store)), OffsetMarker::Block(block_id)),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks, blen(final(store).rope@) == blen(old(store).rope@) + blen(text@),
    doc(*final(store)) == (if is_open(*old(store)) { open_doc(*old(store)) } else { seq![] }).push((OffsetMarker::Block(block_id), text@)),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(is_open); hide(open_doc); hide(shows_open); hide(laid);
let ghost s0 = *store; let ghost x = (OffsetMarker::Block(block_id), text@);
proof { append_top(s0, text@); blen_add(s0.rope@, text@); }
//@ bottom
assert(store.rope@ =~= s0.rope@ + text@);
append_end(s0, *store, x);
//@ end
pub proof fn append_top(s: RopeStore, t: Seq<char>)
    requires is_open(s) || (tidy(s) && doc(s).len() == 0),
    ensures wf(s.block_offsets), s.block_offsets.entries@.len() <= 0x7fff_fff1, s.rope@.len() <= blen(s.rope@) == s.block_offsets.total_bytes,
        is_open(s) ==> forall|m: OffsetMarker| holds(s.block_offsets.entries@, m) <==> #[trigger] names(open_doc(s), m),
        !is_open(s) ==> forall|m: OffsetMarker| !#[trigger] holds(s.block_offsets.entries@, m),
{ if is_open(s) { has_open(s); } else { has_doc(s); blen_ge(s.rope@); } }
pub proof fn append_end(s: RopeStore, s2: RopeStore, x: (OffsetMarker, Seq<char>))
    requires
        is_open(s) || (tidy(s) && doc(s).len() == 0), fits((blen(s.rope@) + blen(x.1)) as int), s2.rope@ == s.rope@ + x.1, wf(s2.block_offsets),
        s2.block_offsets.entries@ == s.block_offsets.entries@.push((x.0, blen(s.rope@) as u32)), s2.block_offsets.total_bytes == blen(s2.rope@),
    ensures tidy(s2), doc(s2) == (if is_open(s) { open_doc(s) } else { seq![] }).push(x),
{
    blen_add(s.rope@, x.1);
    if is_open(s) {
        has_open(s); let d = open_doc(s);
        pushed(d, s.block_offsets.entries@, x);
        is_doc(s2, d.push(x));
    } else {
        has_doc(s); let d = doc(s); one(x);
        assert(d =~= seq![]); assert(s.rope@ =~= seq![]); assert(s2.rope@ =~= x.1); assert(blen(seq![]) == 0);
        let n = Seq::<(OffsetMarker, Seq<char>)>::empty().push(x);
        assert(n =~= seq![x]); is_doc(s2, n);
    }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_append_empty_block
requires tidy(*old(store)), fits((blen(old(store).rope@) + 1) as int), !names(doc(*old(store)), OffsetMarker::Block(block_id)),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == doc(*old(store)).push((OffsetMarker::Block(block_id), Seq::<char>::empty())),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(is_open); hide(open_doc); hide(shows_open); hide(laid);
let ghost s0 = *store; let ghost x = (OffsetMarker::Block(block_id), Seq::<char>::empty());
proof { lens(s0); blen_ge(x.1); }
//@ before len_bytes 0
//raw let ghost s1 = *store;
proof { if s0.block_offsets.entries@.len() == 0 { assert(doc(s0) =~= seq![]); not_open(s0); } append_top(s1, x.1); }
//@ bottom
assert(store.rope@ =~= s1.rope@ + x.1);
append_end(s1, *store, x);
//@ end
pub proof fn not_open(s: RopeStore)
    requires s.block_offsets.entries@.len() == 0,
    ensures !is_open(s),
{ if is_open(s) { has_open(s); } }
//@ rw $x.entries.iter().position(|(_, bs)| *bs > byte_pos).unwrap_or(offsets.entries.len()) => std_first_past(&$x.entries, byte_pos)
//@ rw String::with_capacity($n) => std_with_capacity(0)
//@ rw combined.push('\n') => std_push(&mut combined, '\n')
//@ rw combined.push_str(text) => std_push_str(&mut combined, text)
#[verifier::external_body] // TRUSTED: String::with_capacity
pub fn std_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body] // TRUSTED: String::push_str appends
pub fn std_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] // TRUSTED: String::push appends
pub fn std_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
/// the meaning of iter().position(|(_, bs)| *bs > b).unwrap_or(len)
pub fn std_first_past(v: &Vec<(OffsetMarker, u32)>, b: u32) -> (r: usize)
    ensures r <= v@.len(), forall|k: int| 0 <= k < r ==> (#[trigger] v@[k]).1 <= b, r < v@.len() ==> v@[r as int].1 > b,
{
    let mut i: usize = 0;
    while i < v.len() && v[i].1 <= b
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).1 <= b,
        decreases v@.len() - i,
    { i += 1; }
    i
}
/// the byte b is the end of paragraph i
pub open spec fn ends(s: RopeStore, i: int, b: int) -> bool { 0 <= i < doc(s).len() && b == s.block_offsets.entries@[i].1 + blen(doc(s)[i].1) }
pub open spec fn end_at(s: RopeStore, b: int) -> int { choose|i: int| ends(s, i, b) }
pub proof fn ends_one(s: RopeStore, i: int, b: int)
    requires tidy(s), ends(s, i, b),
    ensures end_at(s, b) == i,
{
    has_doc(s); let d = doc(s); let j = end_at(s, b); assert(ends(s, j, b));
    assert(s.block_offsets.entries@[i].0 == d[i].0); assert(s.block_offsets.entries@[j].0 == d[j].0);
    if i < j { starts_up(d, i, j); } else if j < i { starts_up(d, j, i); }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_insert_block_at
requires
    tidy(*old(store)), fits((blen(old(store).rope@) + blen(text@) + 1) as int), !names(doc(*old(store)), OffsetMarker::Block(block_id)),
    exists|i: int| ends(*old(store), i, byte_pos as int),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == doc(*old(store)).insert(end_at(*old(store), byte_pos as int) + 1, (OffsetMarker::Block(block_id), text@)),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(laid); hide(splice);
let ghost s0 = *store; let ghost x = (OffsetMarker::Block(block_id), text@); let ghost d = doc(s0); let ghost i = end_at(s0, byte_pos as int);
proof {
    assert(ends(s0, i, byte_pos as int));
    lens(s0); sides(s0, i + 1); para_text(s0, i); stops(d, i); put_after(d, i + 1, x); para_is(s0, OffsetMarker::Block(block_id));
    can_put(s0, i + 1, (byte_pos + 1) as u32, (blen(text@) + 1) as int);
}
//@ before insert 0
assert(combined@ =~= seq!['\n'] + text@);
//@ before insert_at 0
//raw let ghost e1 = offsets.entries@;
proof { shifted_markers(s0.block_offsets.entries@, e1, (byte_pos + 1) as u32, (blen(text@) + 1) as int); }
//@ bottom
put_in(s0, e1, *store, i + 1, x, (byte_pos + 1) as u32, (byte_pos + 1) as u32);
//@ end
/// what is left when paragraph i of the store goes
pub proof fn gone(s: RopeStore, e1: Entries, s2: RopeStore, i: int, threshold: u32)
    requires
        tidy(s), 0 <= i < doc(s).len(), doc(s).len() > 1,
        s2.rope@ == if i + 1 < doc(s).len() { splice(s.rope@, start(doc(s), i), start(doc(s), i) + doc(s)[i].1.len() + 1, Seq::<char>::empty()) } else { splice(s.rope@, start(doc(s), i) - 1, start(doc(s), i) + doc(s)[i].1.len(), Seq::<char>::empty()) },
        e1 == s.block_offsets.entries@.remove(i),
        forall|q: int| 0 <= q < i ==> (#[trigger] e1[q]).1 < threshold, forall|q: int| i <= q < e1.len() ==> (#[trigger] e1[q]).1 >= threshold,
        shifted(e1, s2.block_offsets.entries@, threshold, -(blen(doc(s)[i].1) + 1)),
        s2.block_offsets.total_bytes == s.block_offsets.total_bytes - blen(doc(s)[i].1) - 1, wf(s2.block_offsets),
    ensures tidy(s2), doc(s2) == doc(s).remove(i), shows(s2, doc(s).remove(i)),
{
    hide(join); hide(blen); hide(pre); hide(rest); hide(unique); hide(ordered); hide(tidy); hide(splice);
    has_doc(s);
    let d = doc(s); let n = d.remove(i); let x = d[i];
    let (e, e2) = (s.block_offsets.entries@, s2.block_offsets.entries@);
    assert(n.insert(i, x) =~= d);
    if i < n.len() { put_before(n, i, x); put_start(n, i, x, i); }
    else { put_after(n, i, x); put_start(n, i, x, i); }
    assert forall|q: int| 0 <= q < n.len() implies (#[trigger] e2[q]).0 == n[q].0 && e2[q].1 == blen(pre(n, q)) by {
        if q < i { put_start(n, i, x, q); assert(e1[q] == e[q]); assert(moved(e1[q], e2[q], 0)); assert(e[q].0 == d[q].0); }
        else { put_start(n, i, x, q); assert(e1[q] == e[q + 1]); assert(moved(e1[q], e2[q], -(blen(x.1) + 1))); assert(e[q + 1].0 == d[q + 1].0); }
    }
    is_doc(s2, n);
}
/// what shift_after needs when paragraph i goes
pub proof fn can_go(s: RopeStore, s1: RopeStore, i: int, threshold: u32)
    requires
        tidy(s), 0 <= i < doc(s).len(), s1.block_offsets.entries@ == s.block_offsets.entries@.remove(i), s1.block_offsets.total_bytes == s.block_offsets.total_bytes,
        s.block_offsets.entries@[i].1 <= threshold, threshold <= s.block_offsets.entries@[i].1 + blen(doc(s)[i].1) + 1,
    ensures
        ordered(s1.block_offsets),
        doc(s).len() > 1 ==> shiftable(s1.block_offsets.entries@, s.block_offsets.total_bytes, threshold, -(blen(doc(s)[i].1) + 1)) && blen(doc(s)[i].1) + 1 <= s.block_offsets.total_bytes,
        doc(s).len() == 1 ==> shiftable(s1.block_offsets.entries@, s.block_offsets.total_bytes, threshold, -blen(doc(s)[i].1)) && blen(doc(s)[i].1) == s.block_offsets.total_bytes,
        forall|q: int| 0 <= q < i ==> (#[trigger] s1.block_offsets.entries@[q]).1 < threshold, forall|q: int| i <= q < s1.block_offsets.entries@.len() ==> (#[trigger] s1.block_offsets.entries@[q]).1 >= threshold,
{
    hide(tidy); hide(shows); hide(blen);
    has_doc(s); sides(s, i); sides(s, i + 1); para_text(s, i); go_bytes(s, i); lens(s);
    let d = doc(s); let e = s.block_offsets.entries@; let e1 = s1.block_offsets.entries@; let g = blen(d[i].1) + 1;
    assert forall|q: int| 0 <= q < e1.len() implies #[trigger] e1[q] == e[if q < i { q } else { q + 1 }] by { }
    assert forall|q: int| i <= q < e1.len() implies (#[trigger] e1[q]).1 >= e[i].1 + g by { assert(e[q + 1].1 >= blen(pre(d, i + 1))); }
    assert forall|q: int| 0 <= q < i implies (#[trigger] e1[q]).1 < e[i].1 && e1[q].1 <= s.block_offsets.total_bytes - g by { assert(e[q].1 < e[i].1); }
    assert forall|p: int, q: int| 0 <= p < q < e1.len() implies (#[trigger] e1[p]).1 < (#[trigger] e1[q]).1 by { assert(e[if p < i { p } else { p + 1 }].1 < e[if q < i { q } else { q + 1 }].1); }
    assert forall|q: int| 0 <= q < e1.len() implies (#[trigger] e1[q]).1 <= s.block_offsets.total_bytes by { assert(e[if q < i { q } else { q + 1 }].1 <= s.block_offsets.total_bytes); }
}
pub proof fn shifted_len(a: Entries, b: Entries, threshold: u32, delta: int) requires shifted(a, b, threshold, delta), ensures a.len() == b.len() { }
pub proof fn emptied(s: RopeStore, s2: RopeStore)
    requires tidy(s), doc(s).len() == 1, s2.rope@ == Seq::<char>::empty(), s2.block_offsets.entries@.len() == 0, s2.block_offsets.total_bytes == 0, wf(s2.block_offsets),
    ensures tidy(s2), doc(s2) == doc(s).remove(0), shows(s2, doc(s).remove(0)),
{
    has_doc(s);
    let n = doc(s).remove(0); assert(n =~= seq![]); assert(join(n) =~= seq![]); assert(blen(Seq::<char>::empty()) == 0); is_doc(s2, n);
}
pub proof fn wipe(t: Seq<char>)
    ensures splice(t, 0, t.len() as int, Seq::<char>::empty()) == Seq::<char>::empty(),
{ assert(splice(t, 0, t.len() as int, Seq::<char>::empty()) =~= Seq::<char>::empty()); }
/// the places of the bytes that go with paragraph i
pub proof fn go_bytes(s: RopeStore, i: int)
    requires tidy(s), 0 <= i < doc(s).len(),
    ensures ({
        let d = doc(s); let b = s.block_offsets.entries@[i].1; let n = blen(d[i].1);
        &&& at(s.rope@, b as int, start(d, i)) && at(s.rope@, b + n as int, start(d, i) + d[i].1.len())
        &&& i + 1 < d.len() ==> at(s.rope@, b + n + 1 as int, start(d, i) + d[i].1.len() + 1) && b + n + 1 <= blen(s.rope@) && start(d, i) + d[i].1.len() + 1 <= s.rope@.len()
        &&& i > 0 ==> b > 0 && at(s.rope@, b - 1 as int, start(d, i) - 1)
        &&& i == 0 ==> b == 0 && start(d, i) == 0
        &&& i + 1 == d.len() ==> b + n == blen(s.rope@) && start(d, i) + d[i].1.len() == s.rope@.len()
        &&& b + n <= blen(s.rope@) && start(d, i) + d[i].1.len() <= s.rope@.len() && start(d, i) >= i
        &&& end_of(s.block_offsets, i) == b + n + if i + 1 < d.len() { 1int } else { 0 }
    }),
{
    has_doc(s); para_text(s, i); pre_in(doc(s), i); starts_up(doc(s), i, i); few(doc(s), i); sides(s, i);
    if i + 1 < doc(s).len() { para_text(s, i + 1); sides(s, i + 1); pre_in(doc(s), i + 1); starts_up(doc(s), i, i + 1); }
    if i > 0 { para_text(s, i - 1); sides(s, i); stops(doc(s), i - 1); }
    if i + 1 == doc(s).len() { assert(s.block_offsets.entries@[i].0 == doc(s)[i].0); let t = s.rope@; let p = stop(doc(s), i); stops(doc(s), i); assert(t.take(t.len() as int) =~= t); if p < t.len() { blen_mono(t, p, t.len() as int); } }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_remove_block
requires tidy(*old(store)),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == if names(doc(*old(store)), OffsetMarker::Block(block_id)) { doc(*old(store)).remove(para(doc(*old(store)), OffsetMarker::Block(block_id))) } else { doc(*old(store)) },
//@ rwtype &Store => &mut RopeStore
//@ rw block_start.saturating_sub(1) => sat_sub_u32(block_start, 1)
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(laid); hide(splice); hide(shifted); hide(shiftable); hide(blen); hide(at); hide(wf); hide(ordered);
let ghost s0 = *store; let ghost m = OffsetMarker::Block(block_id); let ghost d = doc(s0); let ghost i = para(d, m); let ghost g = blen(d[i].1) as int;
proof {
    para_is(s0, m); lens(s0);
    if names(d, m) { go_bytes(s0, i); stops(d, i); wipe(s0.rope@); blen_ge(d[i].1); blen_ge(s0.rope@); }
}
//@ after remove_at 0
if g == 0 { assert(s0.rope@ =~= seq![]); } emptied(s0, *store);
//@ after remove_at 1
//raw let ghost s1 = *store;
proof { assert(s1.block_offsets.entries@ == s0.block_offsets.entries@.remove(i)); can_go(s0, s1, i, remove_end); }
//@ bottom
if d.len() > 1 { gone(s0, s1.block_offsets.entries@, *store, i, remove_end); } else { shifted_len(s1.block_offsets.entries@, store.block_offsets.entries@, remove_end, -deleted_bytes); emptied(s0, *store); }
//@ end
pub fn sat_sub_u32(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub open spec fn table_text() -> Seq<char> { seq!['\u{FFFC}'] }
pub proof fn table_texts()
    ensures "\u{FFFC}"@ == table_text(), "\u{FFFC}\n"@ == table_text().push('\n'), "\n\u{FFFC}"@ == seq!['\n'] + table_text(), blen(table_text()) == 3, table_text().len() == 1,
{
    reveal_strlit("\u{FFFC}"); reveal_strlit("\u{FFFC}\n"); reveal_strlit("\n\u{FFFC}");
    assert("\u{FFFC}"@ =~= table_text()); assert("\u{FFFC}\n"@ =~= table_text().push('\n')); assert("\n\u{FFFC}"@ =~= seq!['\n'] + table_text());
    blen_one('\u{FFFC}');
}
pub proof fn anchor_place(s: RopeStore, i: int, after: bool, x: (OffsetMarker, Seq<char>))
    requires tidy(s), 0 <= i < doc(s).len(), blen(x.1) == 3, x.1.len() == 1,
    ensures ({
        let d = doc(s); let k = i + if after { 1int } else { 0 }; let n = join(d.insert(k, x)); let e = s.block_offsets.entries@;
        &&& !after || k < d.len() ==> at(s.rope@, e[k].1 as int, start(d, k)) && n == splice(s.rope@, start(d, k), start(d, k), x.1.push('\n')) && e[k].1 == blen(pre(d, k)) && e[k].1 <= blen(s.rope@) && start(d, k) <= s.rope@.len()
        &&& after && k == d.len() ==> at(s.rope@, blen(s.rope@) as int, s.rope@.len() as int) && n == splice(s.rope@, s.rope@.len() as int, s.rope@.len() as int, seq!['\n'] + x.1) && blen(pre(d, k)) == blen(s.rope@) + 1
        &&& after && k < d.len() ==> end_of(s.block_offsets, i) == e[k].1
        &&& after && k == d.len() ==> end_of(s.block_offsets, i) == blen(s.rope@)
        &&& forall|q: int| 0 <= q < k ==> (#[trigger] e[q]).1 < blen(pre(d, k))
        &&& forall|q: int| k <= q < d.len() ==> (#[trigger] e[q]).1 >= blen(pre(d, k))
    }),
{
    hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(stop); hide(splice); hide(blen); hide(at);
    let d = doc(s); let k = i + if after { 1int } else { 0 };
    lens(s); go_bytes(s, i); stops(d, i); sides(s, k); if after { put_after(d, k, x); if k < d.len() { put_before(d, k, x); go_bytes(s, k); } } else { put_before(d, i, x); }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_insert_table_anchor
requires
    tidy(*old(store)), fits((blen(old(store).rope@) + 4) as int),
    names(doc(*old(store)), OffsetMarker::Block(target_block_id)) ==> !names(doc(*old(store)), OffsetMarker::TableAnchor(table_id)),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == if names(doc(*old(store)), OffsetMarker::Block(target_block_id)) { doc(*old(store)).insert(para(doc(*old(store)), OffsetMarker::Block(target_block_id)) + if after { 1int } else { 0 }, (OffsetMarker::TableAnchor(table_id), table_text())) } else { doc(*old(store)) },
//@ rwtype &Store => &mut RopeStore
//@ rwstmt const SENTINEL: &str = $x; => ;
//@ rwstmt const SENTINEL_BYTES: u32 = $x; => ;
//@ rwstmt let _ = SENTINEL; => ;
//@ rwstmt let _ = SENTINEL_BYTES; => ;
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(laid); hide(splice); hide(shifted); hide(shiftable); hide(blen); hide(at); hide(wf); hide(ordered); hide(table_text);
let ghost s0 = *store; let ghost m = OffsetMarker::Block(target_block_id); let ghost x = (OffsetMarker::TableAnchor(table_id), table_text()); let ghost d = doc(s0); let ghost i = para(d, m); let ghost k = i + if after { 1int } else { 0 };
proof {
    table_texts(); para_is(s0, m); para_is(s0, x.0); lens(s0);
    if names(d, m) { anchor_place(s0, i, after, x); }
}
//@ before byte_to_char 0
assert(insert_pos == if after && !target_is_last { s0.block_offsets.entries@[i + 1].1 as int } else if after { blen(s0.rope@) as int } else { s0.block_offsets.entries@[i].1 as int });
assert(target_idx == i);
//@ before shift_after 0
assert(store.rope@ == join(d.insert(k, x)));
assert(marker_byte_start == blen(pre(d, k)));
can_put(s0, k, shift_threshold, 4);
//@ before insert_at 0
//raw let ghost s1 = *store;
proof { shifted_markers(s0.block_offsets.entries@, s1.block_offsets.entries@, shift_threshold, 4); shifted_len(s0.block_offsets.entries@, s1.block_offsets.entries@, shift_threshold, 4); }
//@ bottom
put_in(s0, s1.block_offsets.entries@, *store, k, x, shift_threshold, marker_byte_start);
//@ end
//@ fn crates/common/src/database/rope_helpers.rs rope_append_table_anchor
requires tidy(*old(store)), fits((blen(old(store).rope@) + 4) as int), !names(doc(*old(store)), OffsetMarker::TableAnchor(table_id)),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == doc(*old(store)).push((OffsetMarker::TableAnchor(table_id), table_text())),
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(laid); hide(splice); hide(blen); hide(at); hide(ordered); hide(table_text);
let ghost s0 = *store; let ghost x = (OffsetMarker::TableAnchor(table_id), table_text()); let ghost d = doc(s0);
proof { table_texts(); lens(s0); para_is(s0, x.0); push_rope(s0.rope@, x.1); }
//@ bottom
push_end(s0, *store, x);
//@ end
pub proof fn push_rope(t: Seq<char>, x: Seq<char>)
    ensures blen(splice(t, t.len() as int, t.len() as int, x)) == blen(t) + blen(x), blen(splice(t, t.len() as int, t.len() as int, seq!['\n'] + x)) == blen(t) + blen(x) + 1,
        splice(t, t.len() as int, t.len() as int, x) == t + x, splice(t, t.len() as int, t.len() as int, seq!['\n'] + x) == t.push('\n') + x,
{
    let n = t.len() as int;
    assert(splice(t, n, n, x) =~= t + x); assert(splice(t, n, n, seq!['\n'] + x) =~= t.push('\n') + x);
    blen_add(t, x); blen_add(t.push('\n'), x); blen_push(t, '\n');
}
pub proof fn push_end(s: RopeStore, s2: RopeStore, x: (OffsetMarker, Seq<char>))
    requires
        tidy(s), fits((blen(s.rope@) + blen(x.1) + 1) as int), wf(s2.block_offsets),
        s2.rope@ == if doc(s).len() == 0 { s.rope@ + x.1 } else { s.rope@.push('\n') + x.1 },
        s2.block_offsets.entries@ == s.block_offsets.entries@.push((x.0, (blen(s2.rope@) - blen(x.1)) as u32)), s2.block_offsets.total_bytes == blen(s2.rope@),
    ensures tidy(s2), doc(s2) == doc(s).push(x),
{
    has_doc(s); let d = doc(s);
    blen_add(s.rope@.push('\n'), x.1); blen_push(s.rope@, '\n');
    if d.len() > 0 { pushed(d, s.block_offsets.entries@, x); is_doc(s2, d.push(x)); }
    else { one(x); assert(s.rope@ =~= seq![]); assert(s2.rope@ =~= x.1); let n = d.push(x); assert(n =~= seq![x]); is_doc(s2, n); }
}
//@ fn crates/common/src/database/rope_helpers.rs rope_remove_table_anchor
requires
    tidy(*old(store)),
    names(doc(*old(store)), OffsetMarker::TableAnchor(table_id)) ==> doc(*old(store))[para(doc(*old(store)), OffsetMarker::TableAnchor(table_id))].1 == table_text(),
ensures
    tidy(*final(store)), final(store).blocks == old(store).blocks,
    doc(*final(store)) == if names(doc(*old(store)), OffsetMarker::TableAnchor(table_id)) { doc(*old(store)).remove(para(doc(*old(store)), OffsetMarker::TableAnchor(table_id))) } else { doc(*old(store)) },
//@ rwtype &Store => &mut RopeStore
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(laid); hide(splice); hide(shifted); hide(shiftable); hide(blen); hide(at); hide(wf); hide(ordered); hide(table_text);
let ghost s0 = *store; let ghost m = OffsetMarker::TableAnchor(table_id); let ghost d = doc(s0); let ghost i = para(d, m);
proof {
    table_texts(); para_is(s0, m); lens(s0);
    if names(d, m) { go_bytes(s0, i); stops(d, i); wipe(s0.rope@); }
}
//@ after remove_at 0
can_go(s0, *store, i, anchor_byte_start);
//@ before shift_after 0
//raw let ghost s1 = *store;
//@ bottom
if d.len() > 1 { gone(s0, s1.block_offsets.entries@, *store, i, anchor_byte_start); } else { shifted_len(s1.block_offsets.entries@, store.block_offsets.entries@, anchor_byte_start, -3); emptied(s0, *store); }
//@ end
