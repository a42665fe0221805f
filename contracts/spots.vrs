// Which matches are replaced, and where in their paragraphs they lie.
use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
// ---- which matches lie within a paragraph
//@ rwtype common::database::Store => Store
#[verifier::external_body]
pub struct Store { x: u8 }
//@ item crates/common/src/entities.rs Block only document_position
/// number of characters of a paragraph
pub uninterp spec fn blen(b: Block, s: Store) -> nat;
#[verifier::external_body] // TRUSTED here: block_char_length counts the characters of the paragraph (bounded-checked by the C05 suite)
pub fn block_char_length(b: &Block, s: &Store) -> (r: i64) ensures r == blen(*b, *s) { unimplemented!() }
pub open spec fn laid_out(v: Seq<Block>, s: Store) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> 0 <= (#[trigger] v[i]).document_position && v[i].document_position + blen(v[i], s) < 0x4000_0000_0000_0000
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).document_position + blen(v[i], s) < (#[trigger] v[j]).document_position
}
/// character p of the document is character o of paragraph i
pub open spec fn lies_in(v: Seq<Block>, s: Store, p: int, i: int, o: int) -> bool {
    0 <= i < v.len() && 0 <= o < blen(v[i], s) && p == v[i].document_position + o
}
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs find_block_for_position
requires laid_out(blocks@, *store),
ensures
    r is Some ==> lies_in(blocks@, *store, position as int, r->Some_0.0 as int, r->Some_0.1 as int),
    r is None ==> forall|i: int, o: int| !lies_in(blocks@, *store, position as int, i, o),
//@ ret r
//@ loop 0
invariant
    laid_out(blocks@, *store),
    forall|k: int, o: int| #[trigger] lies_in(blocks@, *store, position as int, k, o) ==> k >= i,
//@ loop 0 bottom
//raw proof { assert forall|k: int, o: int| #[trigger] lies_in(blocks@, *store, position as int, k, o) implies k >= i + 1 by { } }
//@ end
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs match_in_single_block
requires laid_out(blocks@, *store), match_pos + match_len <= usize::MAX,
ensures
    // a match is replaced iff all of it lies within one paragraph
    r is Some ==> lies_in(blocks@, *store, match_pos as int, r->Some_0.0 as int, r->Some_0.1 as int) && r->Some_0.1 + match_len <= blen(blocks@[r->Some_0.0 as int], *store),
    r is None ==> forall|i: int, o: int| #[trigger] lies_in(blocks@, *store, match_pos as int, i, o) ==> o + match_len > blen(blocks@[i], *store),
//@ ret r
//@ ahead let block = $x;
assert forall|i: int, o: int| #[trigger] lies_in(blocks@, *store, match_pos as int, i, o) implies i == block_idx && o == offset by { }
//@ end
// ---- the matches to be replaced, each in its paragraph
//@ item crates/document_search/src/dtos.rs ReplaceTextDto
pub type Found = (usize, usize, usize, usize); // position, length, paragraph, offset there
pub open spec fn fits(v: Seq<Block>, s: Store, m: (usize, usize)) -> bool { exists|i: int, o: int| #[trigger] lies_in(v, s, m.0 as int, i, o) && o + m.1 <= blen(v[i], s) }
pub open spec fn located(v: Seq<Block>, s: Store, f: Found) -> bool { lies_in(v, s, f.0 as int, f.2 as int, f.3 as int) && f.3 + f.1 <= blen(v[f.2 as int], s) }
pub open spec fn in_turn(all: Seq<(usize, usize)>) -> bool { (forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0 + all[i].1 <= usize::MAX) && forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0 + all[i].1 <= (#[trigger] all[j]).0 }
pub open spec fn is_of(f: Found, all: Seq<(usize, usize)>, i: int) -> bool { 0 <= i < all.len() && f.0 == all[i].0 && f.1 == all[i].1 }
pub open spec fn listed(fs: Seq<Found>, m: (usize, usize)) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == m.0 && fs[i].1 == m.1 }
/// fs: those of the first k matches that lie in one paragraph, w: which they are
pub open spec fn sorted_out(fs: Seq<Found>, w: Seq<int>, all: Seq<(usize, usize)>, v: Seq<Block>, s: Store, k: int) -> bool {
    &&& w.len() == fs.len()
    &&& forall|i: int| 0 <= i < fs.len() ==> located(v, s, #[trigger] fs[i]) && is_of(fs[i], all, w[i]) && w[i] < k
    &&& forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] w[i]) < (#[trigger] w[j])
    &&& forall|j: int| 0 <= j < k && fits(v, s, #[trigger] all[j]) ==> listed(fs, all[j])
}
/// fs: all the matches that lie in one paragraph, in order and one behind the other; or only the first of them
pub open spec fn to_replace(fs: Seq<Found>, all: Seq<(usize, usize)>, v: Seq<Block>, s: Store, every: bool) -> bool {
    &&& forall|i: int| 0 <= i < fs.len() ==> located(v, s, #[trigger] fs[i]) && all.contains(((#[trigger] fs[i]).0, fs[i].1))
    &&& forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).0 + fs[i].1 <= (#[trigger] fs[j]).0 && (fs[i].2 == fs[j].2 ==> fs[i].3 + fs[i].1 <= fs[j].3)
    &&& every ==> forall|j: int| 0 <= j < all.len() && fits(v, s, #[trigger] all[j]) ==> listed(fs, all[j])
    &&& !every ==> fs.len() <= 1 && forall|j: int| 0 <= j < all.len() && fits(v, s, #[trigger] all[j]) ==> fs.len() == 1 && fs[0].0 <= all[j].0
}
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs execute_replace
//@ from let mut valid_matches: Vec<(usize, usize, usize, usize)> = $x;
//@ to if !dto.replace_all { $x }
//@ rename replace_which
//@ yields (valid_matches, skipped_cross_block)
//@ sig (all_matches: Vec<(usize, usize)>, blocks: Vec<Block>, store: &Store, dto: &ReplaceTextDto) -> (Vec<Found>, i64)
requires laid_out(blocks@, *store), in_turn(all_matches@), all_matches@.len() <= i64::MAX,
ensures to_replace(r.0@, all_matches@, blocks@, *store, dto.replace_all), dto.replace_all ==> r.0@.len() + r.1 == all_matches@.len(),
//@ ret r
//@ rwstmt let store = uow.store(); =>
//@ rw match_in_single_block($a, $b, $c, &store) => match_in_single_block($a, $b, $c, store)
//@ top
//raw let ghost mut w: Seq<int> = Seq::empty(); let ghost all = all_matches@; let ghost bs = blocks@;
//@ loop 0 it
invariant
    all == all_matches@, bs == blocks@, laid_out(bs, *store), in_turn(all), all.len() <= i64::MAX, it.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> *(#[trigger] it.seq()[i]) == all[i],
    sorted_out(valid_matches@, w, all, bs, *store, it.index@ as int), valid_matches@.len() + skipped_cross_block == it.index@, skipped_cross_block >= 0,
//@ loop 0 top
//raw let ghost k = it.index@ as int; let ghost pre = valid_matches@; let ghost w0 = w; proof { assert(*it.seq()[k] == all[k]); }
//@ loop 0 bottom
if valid_matches@.len() > pre.len() { w = w0.push(k); } sort_step(pre, valid_matches@, w0, all, bs, *store, k);
//@ loop 0 after
sort_end(valid_matches@, w, all, bs, *store);
//@ end
pub proof fn sort_step(f0: Seq<Found>, f1: Seq<Found>, w0: Seq<int>, all: Seq<(usize, usize)>, v: Seq<Block>, s: Store, k: int)
    requires sorted_out(f0, w0, all, v, s, k), 0 <= k < all.len(), laid_out(v, s),
        (f1 == f0 && !fits(v, s, all[k])) || (f1.len() == f0.len() + 1 && f1 == f0.push(f1[f0.len() as int]) && located(v, s, f1[f0.len() as int]) && is_of(f1[f0.len() as int], all, k)),
    ensures sorted_out(f1, if f1.len() > f0.len() { w0.push(k) } else { w0 }, all, v, s, k + 1),
{
    let w1 = if f1.len() > f0.len() { w0.push(k) } else { w0 };
    assert forall|j: int| 0 <= j < k + 1 && fits(v, s, #[trigger] all[j]) implies listed(f1, all[j]) by {
        if j < k { let i = choose|i: int| 0 <= i < f0.len() && (#[trigger] f0[i]).0 == all[j].0 && f0[i].1 == all[j].1; assert(f1[i].0 == all[j].0); } else { assert(f1[f0.len() as int].0 == all[k].0); }
    }
    assert forall|i: int| 0 <= i < f1.len() implies located(v, s, #[trigger] f1[i]) && is_of(f1[i], all, w1[i]) && w1[i] < k + 1 by { if i < f0.len() { assert(f1[i] == f0[i]); assert(w1[i] == w0[i]); } else { assert(i == f0.len()); assert(w1[i] == k); } }
    assert forall|i: int, j: int| 0 <= i < j < f1.len() implies (#[trigger] w1[i]) < (#[trigger] w1[j]) by { if j == f0.len() { let a = f0[i]; assert(f1.len() == f0.len() + 1); assert(located(v, s, a)); assert(w0[i] < k); } else { assert(w0[i] < w0[j]); } }
}
pub proof fn sort_end(fs: Seq<Found>, w: Seq<int>, all: Seq<(usize, usize)>, v: Seq<Block>, s: Store)
    requires sorted_out(fs, w, all, v, s, all.len() as int), in_turn(all), laid_out(v, s),
    ensures to_replace(fs, all, v, s, true), to_replace(fs.take(if fs.len() > 1 { 1 } else { fs.len() as int }), all, v, s, false),
{
    assert forall|i: int| 0 <= i < fs.len() implies located(v, s, #[trigger] fs[i]) && all.contains((fs[i].0, fs[i].1)) by { assert(is_of(fs[i], all, w[i])); assert(all[w[i]] == (fs[i].0, fs[i].1)); }
    assert forall|i: int, j: int| 0 <= i < j < fs.len() implies (#[trigger] fs[i]).0 + fs[i].1 <= (#[trigger] fs[j]).0 && (fs[i].2 == fs[j].2 ==> fs[i].3 + fs[i].1 <= fs[j].3) by {
        assert(w[i] < w[j]); assert(is_of(fs[i], all, w[i]) && is_of(fs[j], all, w[j])); assert(all[w[i]].0 + all[w[i]].1 <= all[w[j]].0); assert(located(v, s, fs[i]) && located(v, s, fs[j]));
    }
    let one = fs.take(if fs.len() > 1 { 1 } else { fs.len() as int });
    assert forall|j: int| 0 <= j < all.len() && fits(v, s, #[trigger] all[j]) implies one.len() == 1 && one[0].0 <= all[j].0 by {
        let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == all[j].0 && fs[i].1 == all[j].1; assert(one[0] == fs[0]); if i > 0 { assert(fs[0].0 + fs[0].1 <= fs[i].0); }
    }
    assert forall|i: int| 0 <= i < one.len() implies located(v, s, #[trigger] one[i]) && all.contains((one[i].0, one[i].1)) by { assert(one[i] == fs[i]); }
}
}
fn main() {}
