use vstd::prelude::*;
use vstd::string::*;
use vstd::seq_lib::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
verus! {
//@ use frag_ops.vrs
impl PartialEqSpecImpl for CharacterFormat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(PartialEq) on CharacterFormat is structural equality
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl Clone for FormatRun {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for ImageAnchor {
    #[verifier::external_body] // TRUSTED: derive(Clone)
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ use coalesce_ops.vrs
#[verifier::external_body] // TRUSTED: slice to_vec copies
pub fn std_runs(s: &[FormatRun]) -> (r: Vec<FormatRun>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] // TRUSTED: slice to_vec copies
pub fn std_images(s: &[ImageAnchor]) -> (r: Vec<ImageAnchor>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] // TRUSTED: String::with_capacity is empty
pub fn std_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
//@ fn crates/common/src/format_runs.rs character_format_from_segment
ensures r == seg_format(*seg),
//@ ret r
//@ end
/// the text of the elements
pub open spec fn el_text(s: Seq<FragmentElement>) -> Seq<char> { chars_of(expand(el_pieces(s))) }
pub open spec fn no_images(s: Seq<FragmentElement>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]).content is Image) }
pub proof fn chars_add<F>(a: Seq<(char, F)>, t: Seq<char>, f: F) ensures chars_of(a + spread(t, f)) == chars_of(a) + t { assert(chars_of(a + spread(t, f)) =~= chars_of(a) + t); }
pub proof fn el_take(s: Seq<FragmentElement>, n: int)
    requires 0 <= n < s.len(),
    ensures expand(el_pieces(s.take(n + 1))) == expand(el_pieces(s.take(n))) + spread(el_piece(s[n]).0, el_format(s[n])), el_text(s.take(n + 1)) == el_text(s.take(n)) + el_piece(s[n]).0,
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); el_push(s.take(n), s[n]); chars_add(expand(el_pieces(s.take(n))), el_piece(s[n]).0, el_format(s[n])); }
pub proof fn el_prefix(s: Seq<FragmentElement>, n: int)
    requires 0 <= n <= s.len(),
    ensures blen(el_text(s.take(n))) <= blen(el_text(s)),
    decreases s.len() - n,
{ if n < s.len() { el_take(s, n); blen_add(el_text(s.take(n)), el_piece(s[n]).0); el_prefix(s, n + 1); } else { assert(s.take(n) =~= s); } }
/// a text in front keeps its boundaries
pub proof fn on_char_more(a: Seq<char>, b: Seq<char>, p: int)
    requires on_char(a, p),
    ensures on_char(a + b, p),
{ char_at(a, p); let k = char_of(a, p); assert((a + b).take(k) =~= a.take(k)); assert(at(a + b, p, k)); }
/// behind a text, its boundaries move
pub proof fn on_char_behind(a: Seq<char>, b: Seq<char>, p: int)
    requires on_char(b, p),
    ensures on_char(a + b, p + blen(a)),
{ char_at(b, p); let k = char_of(b, p); assert((a + b).take(a.len() + k) =~= a + b.take(k)); blen_add(a, b.take(k)); assert(at(a + b, p + blen(a), a.len() + k)); }
/// runs n bytes further on
pub open spec fn moved(r: Seq<FormatRun>, n: int) -> Seq<FormatRun> { r.map_values(|x: FormatRun| FormatRun { byte_start: (x.byte_start + n) as u32, byte_end: (x.byte_end + n) as u32, format: x.format }) }
pub proof fn fmt_at_moved(r: Seq<FormatRun>, n: int, b: int)
    requires 0 <= n, forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).byte_end + n <= u32::MAX && r[i].byte_start <= r[i].byte_end,
    ensures fmt_at(moved(r, n), b) == fmt_at(r, b - n),
    decreases r.len(),
{
    if r.len() > 0 {
        assert(moved(r, n).drop_last() =~= moved(r.drop_last(), n));
        assert(r[r.len() - 1] == r.last());
        fmt_at_moved(r.drop_last(), n, b);
    }
}
/// text and runs of b behind text and runs of a
pub proof fn runs_add(a: Seq<char>, ra: Seq<FormatRun>, b: Seq<char>, rb: Seq<FormatRun>)
    requires runs_of(ra, a), runs_of(rb, b), blen(a) + blen(b) <= u32::MAX,
    ensures runs_of(ra + moved(rb, blen(a) as int), a + b),
{
    hide(on_char);
    let n = blen(a) as int; let mb = moved(rb, n); let m = ra + mb;
    blen_add(a, b);
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).byte_start < m[i].byte_end by { if i < ra.len() { assert(m[i] == ra[i]); } else { assert(m[i] == mb[i - ra.len()]); assert(rb[i - ra.len()].byte_end <= blen(b)); } }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).byte_end <= (#[trigger] m[j]).byte_start by {
        if j < ra.len() { assert(m[i] == ra[i]); assert(m[j] == ra[j]); }
        else if i < ra.len() { assert(m[i] == ra[i]); assert(m[j] == mb[j - ra.len()]); assert(rb[j - ra.len()].byte_end <= blen(b)); }
        else { let (x, y) = (i - ra.len(), j - ra.len()); assert(m[i] == mb[x]); assert(m[j] == mb[y]); assert(rb[x].byte_end <= blen(b)); assert(rb[y].byte_end <= blen(b)); assert(rb[x].byte_end <= rb[y].byte_start); }
    }
    assert forall|i: int| 0 <= i < m.len() implies 0 <= (#[trigger] m[i]).byte_start && m[i].byte_end <= n + blen(b) by { if i < ra.len() { assert(m[i] == ra[i]); } else { assert(m[i] == mb[i - ra.len()]); assert(rb[i - ra.len()].byte_end <= blen(b)); } }
    assert forall|i: int| 0 <= i < m.len() implies on_char(a + b, (#[trigger] m[i]).byte_start as int) && on_char(a + b, m[i].byte_end as int) by {
        if i < ra.len() { assert(m[i] == ra[i]); on_char_more(a, b, ra[i].byte_start as int); on_char_more(a, b, ra[i].byte_end as int); }
        else { let x = i - ra.len(); assert(m[i] == mb[x]); assert(rb[x].byte_end <= blen(b)); assert(rb[x].byte_start < rb[x].byte_end); on_char_behind(a, b, rb[x].byte_start as int); on_char_behind(a, b, rb[x].byte_end as int); }
    }
}
pub proof fn written_at(a: Seq<char>, ra: Seq<FormatRun>, b: Seq<char>, rb: Seq<FormatRun>, k: int)
    requires wf(ra), within(ra, 0, blen(a) as int), wf(rb), within(rb, 0, blen(b) as int), blen(a) + blen(b) <= u32::MAX, 0 <= k < (a + b).len(),
    ensures written(a + b, ra + moved(rb, blen(a) as int))[k] == (written(a, ra) + written(b, rb))[k],
{
    let n = blen(a) as int; let mb = moved(rb, n); let m = ra + mb;
    let p = blen((a + b).take(k)) as int;
    fmt_at_add(ra, mb, p);
    assert forall|i: int| 0 <= i < rb.len() implies (#[trigger] rb[i]).byte_end + n <= u32::MAX && rb[i].byte_start <= rb[i].byte_end by { }
    fmt_at_moved(rb, n, p);
    if k < a.len() {
        assert((a + b).take(k) =~= a.take(k)); assert(a.take(a.len() as int) =~= a); blen_mono(a, k, a.len() as int);
        assert(none_covers(rb, p - n)); fmt_at_miss(rb, p - n);
    } else {
        assert((a + b).take(k) =~= a + b.take(k - a.len())); blen_add(a, b.take(k - a.len()));
        assert(none_covers(ra, p)); fmt_at_miss(ra, p);
    }
}
pub proof fn written_add(a: Seq<char>, ra: Seq<FormatRun>, b: Seq<char>, rb: Seq<FormatRun>)
    requires runs_of(ra, a), runs_of(rb, b), blen(a) + blen(b) <= u32::MAX,
    ensures ({ let m = ra + moved(rb, blen(a) as int); runs_of(m, a + b) && written(a + b, m) == written(a, ra) + written(b, rb) }),
{
    let m = ra + moved(rb, blen(a) as int);
    runs_add(a, ra, b, rb);
    assert forall|k: int| 0 <= k < (a + b).len() implies #[trigger] written(a + b, m)[k] == (written(a, ra) + written(b, rb))[k] by { written_at(a, ra, b, rb, k); }
    assert(written(a + b, m) =~= written(a, ra) + written(b, rb));
}
/// one more piece of text with its format; a text without format has no run
pub proof fn write_more(a: Seq<char>, ra: Seq<FormatRun>, t: Seq<char>, f: CharacterFormat, m: Seq<FormatRun>)
    requires runs_of(ra, a), blen(a) + blen(t) <= u32::MAX, t.len() > 0,
        if f == plain_format() { m == ra } else { m == ra.push(FormatRun { byte_start: blen(a) as u32, byte_end: (blen(a) + blen(t)) as u32, format: f }) },
    ensures runs_of(m, a + t), written(a + t, m) == written(a, ra) + spread(t, f),
{
    let x = FormatRun { byte_start: 0, byte_end: blen(t) as u32, format: f };
    let rt: Seq<FormatRun> = if f == plain_format() { seq![] } else { seq![x] };
    blen_ge(t); ends(t);
    assert(runs_of(rt, t));
    assert forall|k: int| 0 <= k < t.len() implies written(t, rt)[k] == spread(t, f)[k] by {
        let p = blen(t.take(k)) as int; blen_mono(t, k, t.len() as int); assert(t.take(t.len() as int) =~= t);
        if f == plain_format() { fmt_at_miss(rt, p); } else { fmt_at_hit(rt, 0, p); }
    }
    assert(written(t, rt) =~= spread(t, f));
    written_add(a, ra, t, rt);
    assert(m =~= ra + moved(rt, blen(a) as int));
}
/// the edges of a canonical list are edges of every list that shows the same
pub proof fn edge_of_same(s: Seq<FormatRun>, o: Seq<FormatRun>, i: int) -> (e: (int, int))
    requires canonical(s), wf(o), same(s, o), 0 <= i < s.len(),
    ensures 0 <= e.0 < o.len() && o[e.0].byte_start == s[i].byte_start, 0 <= e.1 < o.len() && o[e.1].byte_end == s[i].byte_end,
{
    let (b, e) = (s[i].byte_start as int, s[i].byte_end as int);
    fmt_at_hit(s, i, b); let x = fmt_at_some(o, b);
    if o[x].byte_start < b {
        fmt_at_hit(o, x, b - 1); let j = fmt_at_some(s, b - 1);
        if j > i { assert(s[i].byte_end <= s[j].byte_start); }
        assert(j < i); if j < i - 1 { assert(s[j].byte_end <= s[i - 1].byte_start); assert(s[i - 1].byte_end <= s[i].byte_start); }
        assert(mergeable(s[i - 1], s[i]));
    }
    fmt_at_hit(s, i, e - 1); let y = fmt_at_some(o, e - 1);
    if o[y].byte_end > e {
        fmt_at_hit(o, y, e); let j = fmt_at_some(s, e);
        if j < i { assert(s[j].byte_end <= s[i].byte_start); }
        assert(j > i); if j > i + 1 { assert(s[i].byte_end <= s[i + 1].byte_start); assert(s[i + 1].byte_end <= s[j].byte_start); }
        assert(mergeable(s[i], s[i + 1]));
    }
    (x, y)
}
pub proof fn canonical_of_same(s: Seq<FormatRun>, o: Seq<FormatRun>, t: Seq<char>)
    requires canonical(s), runs_of(o, t), same(s, o),
    ensures runs_of(s, t), written(t, s) == written(t, o),
{
    within_of_same(s, o, 0, blen(t) as int);
    assert forall|i: int| 0 <= i < s.len() implies on_char(t, (#[trigger] s[i]).byte_start as int) && on_char(t, s[i].byte_end as int) by { let e = edge_of_same(s, o, i); }
    assert(written(t, s) =~= written(t, o));
}
// ---- the code
//@ fn crates/document_editing/src/use_cases/insert_fragment_uc.rs frag_block_state
requires no_images(fb.elements@), blen(el_text(fb.elements@)) <= u32::MAX,
ensures r.1@.len() == 0, canonical(r.0@), runs_of(r.0@, el_text(fb.elements@)), written(el_text(fb.elements@), r.0@) == expand(el_pieces(fb.elements@)),
//@ ret r
//@ rw s.len() => std_len(s)
//@ top
//raw
let ghost els = fb.elements@;
//@ loop 0 before
assert(els.take(0) =~= Seq::<FragmentElement>::empty()); assert(el_pieces(els.take(0)) =~= Seq::empty()); assert(el_text(els.take(0)) =~= Seq::<char>::empty());
blen_ge(Seq::<char>::empty());
assert(written(el_text(els.take(0)), runs@) =~= expand(el_pieces(els.take(0))));
//@ loop 0 it
invariant
    it.seq().len() == els.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == els[i], no_images(els), blen(el_text(els)) <= u32::MAX, images@.len() == 0,
    byte_offset == blen(el_text(els.take(it.index@ as int))), runs_of(runs@, el_text(els.take(it.index@ as int))),
    written(el_text(els.take(it.index@ as int)), runs@) == expand(el_pieces(els.take(it.index@ as int))),
//@ loop 0 top
//raw
let ghost n = it.index@ as int; let ghost r0 = runs@; let ghost a = el_text(els.take(n)); let ghost t = el_piece(els[n]).0;
proof { assert(*elem == els[n]); el_take(els, n); el_prefix(els, n + 1); blen_add(a, t); blen_ge(t); assert(a + Seq::<char>::empty() =~= a); assert(els.take(0) =~= Seq::<FragmentElement>::empty()); }
//@ loop 0 bottom
if t.len() > 0 { write_more(a, r0, t, el_format(els[n]), runs@); }
else { assert(t =~= Seq::<char>::empty()); assert(spread(t, el_format(els[n])) =~= Seq::empty()); assert(expand(el_pieces(els.take(n + 1))) =~= expand(el_pieces(els.take(n)))); }
//@ loop 0 after
//raw
assert(els.take(els.len() as int) =~= els); let ghost o = runs@;
//@ after coalesce_in_place 0
canonical_of_same(runs@, o, el_text(els));
//@ end
//@ fn crates/document_editing/src/use_cases/insert_fragment_uc.rs build_head_state
requires
    left_images@.len() == 0, runs_of(left_runs@, text_before@),
    (overwrite_head || merge_first) ==> first_fb is Some,
    first_fb is Some ==> no_images(first_fb->0.elements@) && first_fb->0.plain_text@ == el_text(first_fb->0.elements@) && blen(text_before@) + blen(first_fb->0.plain_text@) <= u32::MAX,
ensures
    r.2@.len() == 0, runs_of(r.1@, r.0@), overwrite_head || merge_first || canonical(left_runs@) ==> canonical(r.1@),
    overwrite_head ==> r.0@ == first_fb->0.plain_text@ && written(r.0@, r.1@) == expand(el_pieces(first_fb->0.elements@)),
    !overwrite_head && merge_first ==> r.0@ == text_before@ + first_fb->0.plain_text@ && written(r.0@, r.1@) == written(text_before@, left_runs@) + expand(el_pieces(first_fb->0.elements@)),
    !overwrite_head && !merge_first ==> r.0@ == text_before@ && r.1@ == left_runs@,
//@ ret r
//@ rw first_fb.expect($m) => first_fb.unwrap()
//@ rw fb.plain_text.clone() => std_clone_string(&fb.plain_text)
//@ rw String::with_capacity($n) => std_new_string()
//@ rw plain.push_str($x) => std_push_str(&mut plain, $x)
//@ rw text_before.len() => std_len(text_before)
//@ rw text_before.to_string() => std_to_string(text_before)
//@ rw left_runs.to_vec() => std_runs(left_runs)
//@ rw left_images.to_vec() => std_images(left_images)
//@ rwstmt for img in frag_images { $b } => for img in frag_images { $b }
//@ loop 0 before
//raw
let ghost t = fb.plain_text@; let ghost n = blen(text_before@) as int; let ghost rb = frag_runs@; let ghost ra = left_runs@;
assert(moved(rb.take(0), n) =~= Seq::empty()); assert(ra + Seq::<FormatRun>::empty() =~= ra);
//@ loop 0 it
invariant
    it.seq() == rb, runs_of(rb, t), first_offset == n, n + blen(t) <= u32::MAX, 0 <= n, runs@ == ra + moved(rb.take(it.index@ as int), n),
//@ loop 0 top
//raw
let ghost k = it.index@ as int; assert(r == rb[k]); assert(rb[k].byte_end <= blen(t)); assert(rb[k].byte_start < rb[k].byte_end);
//@ loop 0 bottom
assert(rb.take(k + 1) =~= rb.take(k).push(rb[k])); assert(moved(rb.take(k + 1), n) =~= moved(rb.take(k), n).push(runs@.last())); assert(runs@ =~= ra + moved(rb.take(k + 1), n));
//@ loop 0 after
//raw
assert(rb.take(rb.len() as int) =~= rb); let ghost o = runs@;
proof { written_add(text_before@, ra, t, rb); }
//@ after coalesce_in_place 0
canonical_of_same(runs@, o, text_before@ + t);
//@ loop 1 it
invariant it.seq().len() == 0, images@.len() == 0,
//@ end
//@ fn crates/document_editing/src/use_cases/insert_fragment_uc.rs build_tail_state
requires
    right_images@.len() == 0, runs_of(right_runs@, text_after@),
    last_frag is Some ==> no_images(last_frag->0.elements@) && last_frag->0.plain_text@ == el_text(last_frag->0.elements@) && blen(text_after@) + blen(last_frag->0.plain_text@) <= u32::MAX,
ensures
    r.2@.len() == 0, runs_of(r.1@, r.0@), last_frag is Some || canonical(right_runs@) ==> canonical(r.1@),
    last_frag is Some ==> r.0@ == last_frag->0.plain_text@ + text_after@ && written(r.0@, r.1@) == expand(el_pieces(last_frag->0.elements@)) + written(text_after@, right_runs@),
    last_frag is None ==> r.0@ == text_after@ && r.1@ == right_runs@,
//@ ret r
//@ rw fb.plain_text.len() => std_len(fb.plain_text.as_str())
//@ rw String::with_capacity($n) => std_new_string()
//@ rw plain.push_str($x) => std_push_str(&mut plain, $x)
//@ rw text_after.len() => std_len(text_after)
//@ rw text_after.to_string() => std_to_string(text_after)
//@ rw right_runs.to_vec() => std_runs(right_runs)
//@ rw right_runs.iter().cloned() => std_runs(right_runs)
//@ rw right_images.to_vec() => std_images(right_images)
//@ rw right_images.iter().cloned() => std_images(right_images)
//@ loop 0 before
//raw
let ghost t = fb.plain_text@; let ghost n = blen(t) as int; let ghost ra = frag_runs@; let ghost rb = right_runs@; let ghost a = text_after@;
assert(moved(rb.take(0), n) =~= Seq::empty()); assert(ra + Seq::<FormatRun>::empty() =~= ra);
//@ loop 0 it
invariant
    it.seq() == rb, runs_of(rb, a), last_offset == n, n + blen(a) <= u32::MAX, 0 <= n, runs@ == ra + moved(rb.take(it.index@ as int), n),
//@ loop 0 top
//raw
let ghost k = it.index@ as int; assert(r == rb[k]); assert(rb[k].byte_end <= blen(a)); assert(rb[k].byte_start < rb[k].byte_end);
//@ loop 0 bottom
assert(rb.take(k + 1) =~= rb.take(k).push(rb[k])); assert(moved(rb.take(k + 1), n) =~= moved(rb.take(k), n).push(runs@.last())); assert(runs@ =~= ra + moved(rb.take(k + 1), n));
//@ loop 0 after
//raw
assert(rb.take(rb.len() as int) =~= rb); let ghost o = runs@;
proof { written_add(t, ra, a, rb); }
//@ after coalesce_in_place 0
canonical_of_same(runs@, o, t + a);
//@ loop 1 it
invariant it.seq().len() == 0, images@.len() == 0,
//@ end
}
fn main() {}
