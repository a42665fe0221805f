// Replacing all matches: the text and the format of every character afterwards, the stored positions, the character count.
//@ use format_types.vrs
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the two fields of Block used here
//@ use edit_ops.vrs
//@ use edit_doc.vrs
//@ item crates/document_search/src/dtos.rs ReplaceTextDto
pub type Match = (usize, usize, usize, usize); // position, length, paragraph, offset there
pub type Rich = Seq<(char, Option<CharacterFormat>)>;
pub open spec fn at_place(o: Store, id: u64) -> Option<Block> { if o.positions@.contains_key(id) { Some(Block { id, document_position: o.positions@[id] }) } else { None } }
pub open spec fn put_all(m: Map<u64, i64>, bs: Seq<Block>) -> Map<u64, i64>
    decreases bs.len()
{ if bs.len() == 0 { m } else { put_all(m, bs.drop_last()).insert(bs.last().id, bs.last().document_position) } }
pub open spec fn present(bs: Seq<Option<Block>>) -> Seq<Block>
    decreases bs.len()
{ if bs.len() == 0 { Seq::empty() } else if bs.last() is Some { present(bs.drop_last()).push(bs.last()->0) } else { present(bs.drop_last()) } }
impl Store {
    #[verifier::external_body] // TRUSTED: reading a paragraph's record (as stored, where positions are stored)
    pub fn the_block(&self, id: &EntityId) -> (r: Result<Block>) ensures r is Ok ==> r->Ok_0.id == *id && (!self.flow@ ==> at_place(*self, *id) == Some(r->Ok_0)) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: writing the records of several paragraphs, one after another
    pub fn update_block_multi(&mut self, bs: &Vec<Block>) -> (r: Result<Vec<Block>>)
        ensures final(self).texts == old(self).texts, final(self).format_runs == old(self).format_runs, final(self).count == old(self).count, final(self).frames == old(self).frames, final(self).members == old(self).members, final(self).flow == old(self).flow,
            r is Ok ==> final(self).positions@ == put_all(old(self).positions@, bs@),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading the records of several paragraphs, in the order asked (as stored, where positions are stored)
    pub fn get_block_multi(&self, ids: &Vec<EntityId>) -> (r: Result<Vec<Option<Block>>>) ensures r is Ok && !self.flow@ ==> r->Ok_0@ == ids@.map_values(|id: u64| at_place(*self, id)) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the document's frames
    pub fn frames_of(&self, id: &EntityId) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.frames@ { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the paragraphs of a frame
    pub fn blocks_of(&self, f: &EntityId) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.members@[*f] { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: iter().rev(): the elements, last first
pub fn std_rev<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[v@.len() - 1 - i] { v.iter().rev().collect() }
// ---- characters with their formats
pub open spec fn rich(t: Seq<char>, s: Seq<FormatRun>) -> Rich { Seq::new(t.len(), |i: int| (t[i], look(t, s, i))) }
pub open spec fn rich_of(o: Store, id: u64) -> Rich { rich(o.texts@[id], runs_of(o.format_runs@, id)) }
/// the replacement in the format of the character on the left of a
pub open spec fn fresh(x: Rich, a: int, rep: Seq<char>) -> Rich { Seq::new(rep.len(), |i: int| (rep[i], if a > 0 { x[a - 1].1 } else { None })) }
pub open spec fn stamp(x: Rich, a: int, b: int, rep: Seq<char>) -> Rich { x.take(a) + fresh(x, a, rep) + x.skip(b) }
pub open spec fn hits(bs: Seq<Block>, m: Match, id: u64) -> bool { bs[m.2 as int].id == id }
/// a paragraph with the matches from the k-th on replaced
pub open spec fn done(x: Rich, bs: Seq<Block>, ms: Seq<Match>, k: int, id: u64, rep: Seq<char>) -> Rich
    decreases ms.len() - k
{ if k >= ms.len() { x } else { let y = done(x, bs, ms, k + 1, id, rep); if hits(bs, ms[k], id) { stamp(y, ms[k].3 as int, ms[k].3 + ms[k].1, rep) } else { y } } }
/// what stands from `from` on: what lies between the matches, unchanged, and the replacement for each match
pub open spec fn pieces(x: Rich, bs: Seq<Block>, ms: Seq<Match>, k: int, id: u64, rep: Seq<char>, from: int) -> Rich
    decreases ms.len() - k
{
    if k >= ms.len() { x.skip(from) } else if !hits(bs, ms[k], id) { pieces(x, bs, ms, k + 1, id, rep, from) }
    else { let a = ms[k].3 as int; x.subrange(from, a) + fresh(x, a, rep) + pieces(x, bs, ms, k + 1, id, rep, a + ms[k].1) }
}
pub open spec fn spot(o: Store, bs: Seq<Block>, m: Match) -> bool { m.2 < bs.len() && ready(o, bs[m.2 as int].id) && m.3 + m.1 <= o.texts@[bs[m.2 as int].id].len() }
/// matches lie in their paragraphs, one behind the other
pub open spec fn placed(o: Store, bs: Seq<Block>, ms: Seq<Match>) -> bool {
    &&& forall|k: int| 0 <= k < ms.len() ==> spot(o, bs, #[trigger] ms[k])
    &&& forall|j: int, k: int| 0 <= j < k < ms.len() && bs[ms[j].2 as int].id == bs[ms[k].2 as int].id ==> (#[trigger] ms[j]).3 + ms[j].1 <= (#[trigger] ms[k]).3
}
pub proof fn done_pieces(x: Rich, o: Store, bs: Seq<Block>, ms: Seq<Match>, k: int, id: u64, rep: Seq<char>, from: int)
    requires placed(o, bs, ms), 0 <= k <= ms.len(), o.texts@.contains_key(id), x.len() == o.texts@[id].len(), 0 <= from <= x.len(), forall|j: int| k <= j < ms.len() && hits(bs, ms[j], id) ==> from <= (#[trigger] ms[j]).3,
    ensures done(x, bs, ms, k, id, rep) == x.take(from) + pieces(x, bs, ms, k, id, rep, from),
    decreases ms.len() - k,
{
    if k >= ms.len() { assert(x =~= x.take(from) + x.skip(from)); }
    else if !hits(bs, ms[k], id) { done_pieces(x, o, bs, ms, k + 1, id, rep, from); }
    else {
        let a = ms[k].3 as int; let b = a + ms[k].1; assert(spot(o, bs, ms[k]));
        assert forall|j: int| k + 1 <= j < ms.len() && hits(bs, ms[j], id) implies b <= (#[trigger] ms[j]).3 by { assert(ms[k].3 + ms[k].1 <= ms[j].3); }
        done_pieces(x, o, bs, ms, k + 1, id, rep, b); let y = done(x, bs, ms, k + 1, id, rep); let p = pieces(x, bs, ms, k + 1, id, rep, b);
        assert(y == x.take(b) + p); assert(y.take(a) =~= x.take(a)); assert(y.skip(b) =~= p); assert(fresh(y, a, rep) =~= fresh(x, a, rep));
        assert(stamp(y, a, b, rep) =~= x.take(from) + (x.subrange(from, a) + fresh(x, a, rep) + p));
    }
}
pub proof fn edited_rich(n: Store, o: Store, id: u64, a: int, b: int, ins: Seq<char>)
    requires edited(n, o, id, a, b, ins), 0 <= a <= b <= o.texts@[id].len(),
    ensures rich_of(n, id) == stamp(rich_of(o, id), a, b, ins), forall|x: u64| x != id ==> #[trigger] rich_of(n, x) == rich_of(o, x),
{
    let (t, s, t1, s1) = (o.texts@[id], runs_of(o.format_runs@, id), n.texts@[id], runs_of(n.format_runs@, id));
    assert(t1 == splice(t, a, b, ins));
    let (p, q) = (rich(t1, s1), stamp(rich(t, s), a, b, ins));
    assert(p.len() == q.len());
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { assert(look(t1, s1, i) == new_look(t, s, a, b, ins.len() as int, i)); }
    assert(p =~= q);
    assert forall|x: u64| x != id implies #[trigger] rich_of(n, x) == rich_of(o, x) by { assert(runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)); assert(n.texts@[x] == o.texts@[x]); }
}
/// by how much the matches before the k-th change the length
pub open spec fn gain(ms: Seq<Match>, n: int, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { gain(ms, n, k - 1) + n - ms[k - 1].1 } }
pub proof fn gain_all(ms: Seq<Match>, n: int, k: int)
    requires 0 <= k < ms.len(),
    ensures gain(ms, n, k + 1) == gain(ms, n, k) + n - ms[k].1,
{}
/// by how much the matches from the k-th on change the length
pub open spec fn gain_from(ms: Seq<Match>, n: int, k: int) -> int
    decreases ms.len() - k
{ if k >= ms.len() { 0 } else { gain_from(ms, n, k + 1) + n - ms[k].1 } }
pub proof fn gain_split(ms: Seq<Match>, n: int, k: int)
    requires 0 <= k <= ms.len(),
    ensures gain(ms, n, k) + gain_from(ms, n, k) == gain(ms, n, ms.len() as int),
    decreases ms.len() - k,
{ if k < ms.len() { gain_split(ms, n, k + 1); } }
pub open spec fn room(o: Store, ms: Seq<Match>, rep: Seq<char>) -> bool { 1 <= ms.len() <= i32::MAX && ms.len() * blen(rep) <= 0x3fff_ffff && forall|x: u64| #[trigger] o.texts@.contains_key(x) ==> blen(o.texts@[x]) <= 0x3fff_ffff }
pub open spec fn neat(o: Store, x: u64) -> bool { styled(o.texts@[x], runs_of(o.format_runs@, x)) }
/// the matches from the k-th on have been replaced
pub open spec fn so_far(n: Store, o: Store, bs: Seq<Block>, ms: Seq<Match>, k: int, rep: Seq<char>) -> bool {
    &&& n.count == o.count && n.frames == o.frames && n.members == o.members && n.flow == o.flow && n.texts@.dom() == o.texts@.dom() && (!o.flow@ ==> n.positions@ == o.positions@)
    &&& forall|x: u64| #[trigger] o.texts@.contains_key(x) ==> rich_of(n, x) == done(rich_of(o, x), bs, ms, k, x, rep) && (neat(o, x) ==> neat(n, x)) && blen(n.texts@[x]) <= blen(o.texts@[x]) + (ms.len() - k) * blen(rep)
}
/// every match replaced, nothing else changed
pub open spec fn replaced(n: Store, o: Store, bs: Seq<Block>, ms: Seq<Match>, rep: Seq<char>) -> bool {
    &&& n.count == o.count && n.frames == o.frames && n.members == o.members && n.flow == o.flow && n.texts@.dom() == o.texts@.dom() && (!o.flow@ ==> n.positions@ == o.positions@)
    &&& forall|x: u64| #[trigger] o.texts@.contains_key(x) ==> rich_of(n, x) == pieces(rich_of(o, x), bs, ms, 0, x, rep, 0) && (neat(o, x) ==> neat(n, x))
}
pub proof fn all_replaced(n: Store, o: Store, bs: Seq<Block>, ms: Seq<Match>, rep: Seq<char>)
    requires so_far(n, o, bs, ms, 0, rep), placed(o, bs, ms),
    ensures replaced(n, o, bs, ms, rep),
{
    assert forall|x: u64| #[trigger] o.texts@.contains_key(x) implies rich_of(n, x) == pieces(rich_of(o, x), bs, ms, 0, x, rep, 0) && (neat(o, x) ==> neat(n, x)) by {
        let r = rich_of(o, x); let q = pieces(r, bs, ms, 0, x, rep, 0); done_pieces(r, o, bs, ms, 0, x, rep, 0); assert(r.take(0) + q =~= q);
    }
}
/// the k-th match can be replaced once those behind it have been
pub proof fn next_spot(c: Store, o: Store, bs: Seq<Block>, ms: Seq<Match>, k: int, rep: Seq<char>)
    requires so_far(c, o, bs, ms, k + 1, rep), placed(o, bs, ms), room(o, ms, rep), 0 <= k < ms.len(),
    ensures ({ let id = bs[ms[k].2 as int].id; ms[k].2 < bs.len() && o.texts@.contains_key(id) && ready(c, id) && ms[k].3 + ms[k].1 <= c.texts@[id].len() && ms[k].3 + ms[k].1 <= o.texts@[id].len() <= 0x3fff_ffff && blen(c.texts@[id]) + blen(rep) <= i32::MAX }),
{
    let m = ms[k]; let id = bs[m.2 as int].id; let b = m.3 + m.1; assert(spot(o, bs, m)); let x = rich_of(o, id); blen_ge(o.texts@[id]);
    assert forall|j: int| k + 1 <= j < ms.len() && hits(bs, ms[j], id) implies b <= (#[trigger] ms[j]).3 by { assert(ms[k].3 + ms[k].1 <= ms[j].3); }
    done_pieces(x, o, bs, ms, k + 1, id, rep, b); assert(rich_of(c, id).len() >= b);
    assert((ms.len() - (k + 1)) * blen(rep) + blen(rep) <= ms.len() * blen(rep)) by (nonlinear_arith) requires 0 <= k, blen(rep) >= 0;
    assert((ms.len() - (k + 1)) * blen(rep) >= 0) by (nonlinear_arith) requires k < ms.len(), blen(rep) >= 0;
}
pub proof fn one_more(n: Store, c: Store, o: Store, bs: Seq<Block>, ms: Seq<Match>, k: int, rep: Seq<char>)
    requires so_far(c, o, bs, ms, k + 1, rep), placed(o, bs, ms), room(o, ms, rep), 0 <= k < ms.len(), edited(n, c, bs[ms[k].2 as int].id, ms[k].3 as int, ms[k].3 + ms[k].1, rep),
        n.count == c.count && n.frames == c.frames && n.members == c.members && n.flow == c.flow, !o.flow@ ==> n.positions@ == c.positions@,
    ensures so_far(n, o, bs, ms, k, rep),
{
    next_spot(c, o, bs, ms, k, rep); let id = bs[ms[k].2 as int].id; let (a, b) = (ms[k].3 as int, ms[k].3 + ms[k].1); edited_rich(n, c, id, a, b, rep);
    assert(n.texts@.dom() =~= o.texts@.dom());
    assert((ms.len() - (k + 1)) * blen(rep) + blen(rep) == (ms.len() - k) * blen(rep)) by (nonlinear_arith);
    let t = c.texts@[id]; let u = n.texts@[id]; splice_bytes(t, a, b, rep, u.len() as int); take_all(u); take_all(t); blen_mono(t, a, b);
    assert forall|x: u64| #[trigger] o.texts@.contains_key(x) implies rich_of(n, x) == done(rich_of(o, x), bs, ms, k, x, rep) && (neat(o, x) ==> neat(n, x)) && blen(n.texts@[x]) <= blen(o.texts@[x]) + (ms.len() - k) * blen(rep) by {
        if x != id { assert(rich_of(n, x) == rich_of(c, x)); assert(n.texts@[x] == c.texts@[x]); assert(runs_of(n.format_runs@, x) == runs_of(c.format_runs@, x)); }
    }
}
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs replace_in_block
requires ready(*old(uow), block.id), 0 <= char_start <= char_end <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(replacement@) <= i32::MAX,
ensures r is Ok ==> edited(*final(uow), *old(uow), block.id, char_start as int, char_end as int, replacement@) && final(uow).count == old(uow).count && final(uow).frames == old(uow).frames && final(uow).members == old(uow).members && final(uow).flow == old(uow).flow
    && final(uow).positions@ == old(uow).positions@.insert(block.id, block.document_position),
//@ ret r
//@ top
//raw let ghost o = *uow; let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); let ghost mut s1: Seq<FormatRun> = Seq::empty(); proof { blen_ge(t); blen_mono(t, char_start as int, char_end as int); still_there(t, char_start as int, char_end as int); take_all(t); }
//@ after shift_runs_for_delete 0
//raw let ghost cut = runs@; proof { cut_ok(t, s, char_start as int, char_end as int, cut); }
//@ after shift_runs_for_insert 0
s1 = runs@; filled(t, s, char_start as int, char_end as int, replacement@, cut, s1);
//@ ahead Ok(())
assert(splice(splice(t, char_start as int, char_end as int, Seq::empty()), char_start as int, char_start as int, replacement@) =~= splice(t, char_start as int, char_end as int, replacement@)); assert(uow.texts@ =~= o.texts@.insert(block.id, splice(t, char_start as int, char_end as int, replacement@)));
//@ end
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs execute_replace
//@ from let replacement = $x;
//@ to let mut all_block_ids: Vec<EntityId> = $x;
//@ rename replace_matches
//@ yields Ok((replacements_count, cumulative_delta))
//@ sig (uow: &mut Store, blocks: Vec<Block>, valid_matches: Vec<Match>, dto: &ReplaceTextDto) -> Result<(i64, i64)>
requires placed(*old(uow), blocks@, valid_matches@), room(*old(uow), valid_matches@, dto.replacement@),
ensures r is Ok ==> replaced(*final(uow), *old(uow), blocks@, valid_matches@, dto.replacement@) && r->Ok_0.0 == valid_matches@.len() && r->Ok_0.1 == gain(valid_matches@, dto.replacement@.len() as int, valid_matches@.len() as int),
//@ ret r
//@ rw valid_matches.iter().rev() => std_rev(&valid_matches)
//@ rw uow.get_block($a)?.ok_or_else($b)? => uow.the_block($a)?
//@ top
//raw let ghost o = *uow; let ghost ms = valid_matches@; let ghost bs = blocks@; let ghost rep = dto.replacement@; let ghost n = ms.len() as int; let ghost m = blen(rep); proof { blen_ge(rep); assert(m <= n * m) by (nonlinear_arith) requires n >= 1, m >= 0; assert(0 * m == 0); }
//@ loop 0 it
invariant
    placed(o, bs, ms), room(o, ms, rep), n == ms.len(), ms == valid_matches@, bs == blocks@, rep == dto.replacement@, *replacement == dto.replacement, replacement_char_len == rep.len(), rep.len() <= 0x3fff_ffff,
    it.seq().len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] it.seq()[i]) == ms[n - 1 - i],
    so_far(*uow, o, bs, ms, n - it.index@, rep), cumulative_delta == gain_from(ms, rep.len() as int, n - it.index@), -0x3fff_ffff * it.index@ <= cumulative_delta <= 0x3fff_ffff * it.index@,
//@ loop 0 top
//raw let ghost k = n - 1 - it.index@; let ghost c = *uow; proof { assert(*it.seq()[it.index@ as int] == ms[k]); next_spot(c, o, bs, ms, k, rep); }
//@ loop 0 bottom
assert(!o.flow@ ==> uow.positions@ =~= c.positions@); one_more(*uow, c, o, bs, ms, k, rep);
//@ loop 0 after
all_replaced(*uow, o, bs, ms, rep); gain_split(ms, rep.len() as int, 0);
//@ end
// ---- positions and the count
/// the paragraphs of the first k frames
pub open spec fn ids_upto(o: Store, k: int) -> Seq<u64>
    decreases k
{ if k <= 0 { Seq::empty() } else { ids_upto(o, k - 1) + o.members@[o.frames@[k - 1]] } }
pub uninterp spec fn in_order(bs: Seq<Block>) -> Seq<Block>; // the records, sorted by position
#[verifier::external_body] // TRUSTED: sort_by_key depends on the records alone
pub fn std_sort(v: &mut Vec<Block>) ensures final(v)@ == in_order(old(v)@) { v.sort_by_key(|b| b.document_position) }
#[verifier::external_body] // TRUSTED: into_iter, flatten, collect: the values present, in order
pub fn std_present(v: Vec<Option<Block>>) -> (r: Vec<Block>) ensures r@ == present(v@) { v.into_iter().flatten().collect() }
#[verifier::external_body] // TRUSTED: Vec::extend appends
pub fn std_append(v: &mut Vec<u64>, w: Vec<u64>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
#[verifier::external_body] // TRUSTED: iter().position(|b| b.id == id): the first index with that id
pub fn std_index_of(v: &Vec<Block>, id: u64) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && v@[i as int].id == id && forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).id != id, None => forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).id != id },
{ v.iter().position(|b| b.id == id) }
#[verifier::external_body]
pub struct Sums { x: u8 } // TRUSTED: HashMap<usize, i64>
impl Sums {
    pub uninterp spec fn view(&self) -> Map<usize, i64>;
    #[verifier::external_body] // TRUSTED: HashMap::new
    pub fn none() -> (r: Sums) ensures r@ == Map::<usize, i64>::empty() { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::entry(..).or_insert(d)
    pub fn at(&mut self, i: usize, d: i64) -> (r: &mut i64) ensures *r == (if old(self)@.contains_key(i) { old(self)@[i] } else { d }), final(self)@ == old(self)@.insert(i, *final(r)) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::get
    pub fn get(&self, i: &usize) -> (r: Option<i64>) ensures match r { Some(d) => self@.contains_key(*i) && d == self@[*i], None => !self@.contains_key(*i) } { unimplemented!() }
}
/// by how much the first k matches change the length of paragraph j
pub open spec fn gain_at(ms: Seq<Match>, n: int, j: int, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { gain_at(ms, n, j, k - 1) + (if ms[k - 1].2 == j { n - ms[k - 1].1 } else { 0 }) } }
/// by how much the paragraphs before the i-th grow
pub open spec fn ahead(ms: Seq<Match>, n: int, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { ahead(ms, n, i - 1) + gain_at(ms, n, i - 1, ms.len() as int) } }
pub open spec fn gain_upto(ms: Seq<Match>, n: int, i: int, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { gain_upto(ms, n, i, k - 1) + (if ms[k - 1].2 < i { n - ms[k - 1].1 } else { 0 }) } }
pub proof fn upto_step(ms: Seq<Match>, n: int, i: int, k: int)
    requires 0 <= i, 0 <= k <= ms.len(),
    ensures gain_upto(ms, n, i + 1, k) == gain_upto(ms, n, i, k) + gain_at(ms, n, i, k), i == 0 ==> gain_upto(ms, n, 0, k) == 0,
    decreases k,
{ if k > 0 { upto_step(ms, n, i, k - 1); } }
/// the paragraphs before grow by the sum of what their matches do
pub proof fn ahead_sum(ms: Seq<Match>, n: int, i: int)
    requires 0 <= i,
    ensures ahead(ms, n, i) == gain_upto(ms, n, i, ms.len() as int),
    decreases i,
{ if i > 0 { ahead_sum(ms, n, i - 1); upto_step(ms, n, i - 1, ms.len() as int); } else { upto_step(ms, n, 0, ms.len() as int); } }
pub open spec fn fair(ms: Seq<Match>, n: int) -> bool { 0 <= n <= 0x3fff_ffff && ms.len() <= i32::MAX && forall|k: int| 0 <= k < ms.len() ==> (#[trigger] ms[k]).1 <= 0x3fff_ffff }
pub proof fn gain_small(ms: Seq<Match>, n: int, i: int, k: int)
    requires fair(ms, n), 0 <= k <= ms.len(),
    ensures -0x3fff_ffff * k <= gain_upto(ms, n, i, k) <= 0x3fff_ffff * k, -0x3fff_ffff * k <= gain_at(ms, n, i, k) <= 0x3fff_ffff * k,
    decreases k,
{ if k > 0 { assert(ms[k - 1].1 <= 0x3fff_ffff); gain_small(ms, n, i, k - 1); } }
pub open spec fn summed(m: Map<usize, i64>, ms: Seq<Match>, n: int, k: int) -> bool {
    forall|j: usize| (#[trigger] m.contains_key(j) ==> m[j] == gain_at(ms, n, j as int, k)) && (!m.contains_key(j) ==> gain_at(ms, n, j as int, k) == 0)
}
/// the stored positions with the first k paragraphs moved
pub open spec fn behind(p: Map<u64, i64>, bs: Seq<Block>, ms: Seq<Match>, n: int, k: int) -> Map<u64, i64>
    decreases k
{ if k <= 0 { p } else { behind(p, bs, ms, n, k - 1).insert(bs[k - 1].id, (bs[k - 1].document_position + ahead(ms, n, k - 1)) as i64) } }
pub open spec fn distinct(bs: Seq<Block>) -> bool { forall|i: int, j: int| 0 <= i < j < bs.len() ==> (#[trigger] bs[i]).id != (#[trigger] bs[j]).id }
pub open spec fn recorded(o: Store, bs: Seq<Block>) -> bool { forall|i: int| 0 <= i < bs.len() ==> o.positions@.contains_key((#[trigger] bs[i]).id) && o.positions@[bs[i].id] == bs[i].document_position }
/// every paragraph stands as much further as those before it grew; the others stand where they stood
pub open spec fn stands(p: Map<u64, i64>, o: Map<u64, i64>, bs: Seq<Block>, ms: Seq<Match>, n: int, k: int) -> bool {
    &&& p.dom() == o.dom()
    &&& forall|i: int| 0 <= i < k ==> p[(#[trigger] bs[i]).id] == bs[i].document_position + ahead(ms, n, i)
    &&& forall|x: u64| (forall|i: int| 0 <= i < k ==> (#[trigger] bs[i]).id != x) ==> #[trigger] p[x] == o[x]
}
pub proof fn all_stand(o: Store, bs: Seq<Block>, ms: Seq<Match>, n: int, k: int)
    requires distinct(bs), recorded(o, bs), 0 <= k <= bs.len(), forall|i: int| 0 <= i < bs.len() ==> i64::MIN <= (#[trigger] bs[i]).document_position + ahead(ms, n, i) <= i64::MAX,
    ensures stands(behind(o.positions@, bs, ms, n, k), o.positions@, bs, ms, n, k),
    decreases k,
{
    if k > 0 {
        all_stand(o, bs, ms, n, k - 1); let q = behind(o.positions@, bs, ms, n, k - 1); let p = behind(o.positions@, bs, ms, n, k); let b = bs[k - 1];
        assert(o.positions@.contains_key(b.id)); assert(p.dom() =~= o.positions@.dom());
        assert forall|i: int| 0 <= i < k implies p[(#[trigger] bs[i]).id] == bs[i].document_position + ahead(ms, n, i) by { if i < k - 1 { assert(bs[i].id != b.id); } }
        assert forall|x: u64| (forall|i: int| 0 <= i < k ==> (#[trigger] bs[i]).id != x) implies #[trigger] p[x] == o.positions@[x] by { assert(bs[k - 1].id != x); assert(q[x] == o.positions@[x]); }
    }
}
pub open spec fn steady(o: Store, bs: Seq<Block>) -> bool { bs == in_order(present(ids_upto(o, o.frames@.len() as int).map_values(|id: u64| at_place(o, id)))) && distinct(bs) && recorded(o, bs) && forall|i: int| 0 <= i < bs.len() ==> -0x0fff_ffff_ffff_ffff <= (#[trigger] bs[i]).document_position <= 0x0fff_ffff_ffff_ffff }
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs execute_replace
//@ from let mut all_block_ids: Vec<EntityId> = $x;
//@ to let total_delta = $x;
//@ rename move_behind
//@ yields Ok(total_delta)
//@ sig (uow: &mut Store, blocks: Vec<Block>, valid_matches: Vec<Match>, doc_id: EntityId, replacement_char_len: i64, cumulative_delta: i64) -> Result<i64>
requires !old(uow).flow@, steady(*old(uow), blocks@), fair(valid_matches@, replacement_char_len as int), forall|k: int| 0 <= k < valid_matches@.len() ==> (#[trigger] valid_matches@[k]).2 < blocks@.len(),
ensures r is Ok ==> r->Ok_0 == cumulative_delta && stands(final(uow).positions@, old(uow).positions@, blocks@, valid_matches@, replacement_char_len as int, blocks@.len() as int)
    && final(uow).texts == old(uow).texts && final(uow).format_runs == old(uow).format_runs && final(uow).count == old(uow).count && final(uow).frames == old(uow).frames && final(uow).members == old(uow).members && final(uow).flow == old(uow).flow,
//@ ret r
//@ rw uow.get_document_relationship($a, $b) => uow.frames_of($a)
//@ rw uow.get_frame_relationship($a, $b) => uow.blocks_of($a)
//@ rw all_block_ids.extend(block_ids) => std_append(&mut all_block_ids, block_ids)
//@ rw blocks_opt.into_iter().flatten().collect() => std_present(blocks_opt)
//@ rw current_blocks.sort_by_key($x) => std_sort(&mut current_blocks)
//@ rwtype std::collections::HashMap<usize, i64> => Sums
//@ rw std::collections::HashMap::new() => Sums::none()
//@ rw delta_by_block.entry($a).or_insert($d) => delta_by_block.at($a, $d)
//@ rw blocks.iter().position(|b| b.id == block.id) => std_index_of(&blocks, block.id)
//@ rw if let Some(&$d) = delta_by_block.get($k) { $b } else if $c { $e } => if let Some($d) = delta_by_block.get($k) { $b } else if $c { $e }
//@ rwstmt ub.updated_at = $x; =>
//@ top
//raw let ghost o = *uow; let ghost ms = valid_matches@; let ghost bs = blocks@; let ghost n = replacement_char_len as int; let ghost m = ms.len() as int;
//@ loop 0 it
invariant
    *uow == o, it.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == o.frames@[i], all_block_ids@ == ids_upto(o, it.index@ as int),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == o.frames@[it.index@ as int]);
//@ loop 1 it
invariant
    *uow == o, fair(ms, n), n == replacement_char_len, ms == valid_matches@, summed(delta_by_block@, ms, n, it.index@ as int), it.seq().len() == m, m == ms.len(), forall|i: int| 0 <= i < m ==> *(#[trigger] it.seq()[i]) == ms[i],
//@ loop 1 top
//raw let ghost k = it.index@ as int; let ghost was = delta_by_block@; proof { assert(*it.seq()[k] == ms[k]); gain_small(ms, n, ms[k].2 as int, k); gain_small(ms, n, ms[k].2 as int, k + 1); }
//@ loop 1 bottom
assert(summed(delta_by_block@, ms, n, k + 1)) by { assert forall|j: usize| (#[trigger] delta_by_block@.contains_key(j) ==> delta_by_block@[j] == gain_at(ms, n, j as int, k + 1)) && (!delta_by_block@.contains_key(j) ==> gain_at(ms, n, j as int, k + 1) == 0) by { assert(was.contains_key(j) || !was.contains_key(j)); } }
//@ loop 2 it
invariant
    *uow == o, steady(o, bs), fair(ms, n), n == replacement_char_len, m == ms.len(), bs == blocks@, summed(delta_by_block@, ms, n, m), it.seq().len() == bs.len(), forall|i: int| 0 <= i < bs.len() ==> *(#[trigger] it.seq()[i]) == bs[i],
    cumulative_shift == ahead(ms, n, it.index@ as int), put_all(o.positions@, blocks_to_update@) == behind(o.positions@, bs, ms, n, it.index@ as int),
//@ loop 2 top
//raw let ghost k = it.index@ as int; let ghost pre = blocks_to_update@; let ghost was = cumulative_shift; proof { assert(*it.seq()[k] == bs[k]); ahead_sum(ms, n, k); gain_small(ms, n, k, m); ahead_sum(ms, n, k + 1); gain_small(ms, n, k + 1, m); assert(delta_by_block@.contains_key(k as usize) || !delta_by_block@.contains_key(k as usize)); step_in(o, bs, ms, n, k); }
//@ loop 2 bottom
if was != 0 { let b = Block { id: bs[k].id, document_position: (bs[k].document_position + was) as i64 }; assert(blocks_to_update@ =~= pre.push(b)); assert(blocks_to_update@.drop_last() =~= pre); } else { assert(blocks_to_update@ == pre); }
//@ loop 2 after
assert forall|i: int| 0 <= i < bs.len() implies i64::MIN <= (#[trigger] bs[i]).document_position + ahead(ms, n, i) <= i64::MAX by { ahead_sum(ms, n, i); gain_small(ms, n, i, m); } all_stand(o, bs, ms, n, bs.len() as int);
//@ end
/// where nothing before grew, the record stays
pub proof fn step_in(o: Store, bs: Seq<Block>, ms: Seq<Match>, n: int, k: int)
    requires steady(o, bs), fair(ms, n), 0 <= k < bs.len(),
    ensures ahead(ms, n, k) == 0 ==> behind(o.positions@, bs, ms, n, k + 1) == behind(o.positions@, bs, ms, n, k),
{
    assert forall|i: int| 0 <= i < bs.len() implies i64::MIN <= (#[trigger] bs[i]).document_position + ahead(ms, n, i) <= i64::MAX by { ahead_sum(ms, n, i); gain_small(ms, n, i, ms.len() as int); }
    all_stand(o, bs, ms, n, k); let q = behind(o.positions@, bs, ms, n, k); let b = bs[k];
    assert(o.positions@.contains_key(b.id)); assert(forall|i: int| 0 <= i < k ==> (#[trigger] bs[i]).id != b.id); assert(q[b.id] == o.positions@[b.id]);
    if ahead(ms, n, k) == 0 { assert(q.insert(b.id, b.document_position) =~= q); }
}
//@ fn crates/document_search/src/use_cases/replace_text_uc.rs execute_replace
//@ from let mut document = $x;
//@ to uow.update_document(&document)?;
//@ rename count_again
//@ yields Ok(())
//@ sig (uow: &mut Store, doc_id: EntityId, total_delta: i64) -> Result<()>
requires -0x4000_0000_0000_0000 <= total_delta <= 0x3fff_ffff_ffff_ffff, 0 <= old(uow).count@ <= 0x0fff_ffff_ffff_ffff,
ensures r is Ok ==> final(uow).count@ == old(uow).count@ + total_delta && final(uow).texts == old(uow).texts && final(uow).format_runs == old(uow).format_runs && final(uow).positions == old(uow).positions,
//@ ret r
//@ rwstmt let mut document = $x; => let mut document = std_found(uow.document(&doc_id)?)?;
//@ rwstmt document.updated_at = $x; =>
//@ end
pub proof fn gain_bounds(ms: Seq<Match>, n: int, k: int)
    requires fair(ms, n), 0 <= k <= ms.len(),
    ensures -0x3fff_ffff * k <= gain(ms, n, k) <= 0x3fff_ffff * k,
    decreases k,
{ if k > 0 { assert(ms[k - 1].1 <= 0x3fff_ffff); gain_bounds(ms, n, k - 1); } }
pub proof fn same_ids(n: Store, o: Store, k: int)
    requires n.frames == o.frames, n.members == o.members,
    ensures ids_upto(n, k) == ids_upto(o, k),
    decreases k,
{ if k > 0 { same_ids(n, o, k - 1); } }
pub proof fn still_steady(n: Store, o: Store, bs: Seq<Block>)
    requires n.frames == o.frames, n.members == o.members, n.positions@ == o.positions@, steady(o, bs),
    ensures steady(n, bs),
{
    same_ids(n, o, o.frames@.len() as int); let ids = ids_upto(o, o.frames@.len() as int);
    assert(ids.map_values(|id: u64| at_place(n, id)) =~= ids.map_values(|id: u64| at_place(o, id)));
}
/// the whole: text, formats, positions, count
pub fn replaced_everywhere(uow: &mut Store, blocks: Vec<Block>, valid_matches: Vec<Match>, again: Vec<Match>, blocks2: Vec<Block>, doc_id: EntityId, dto: &ReplaceTextDto) -> (r: Result<()>)
    requires placed(*old(uow), blocks@, valid_matches@), room(*old(uow), valid_matches@, dto.replacement@), !old(uow).flow@, steady(*old(uow), blocks@), 0 <= old(uow).count@ <= 0x0fff_ffff_ffff_ffff, again@ == valid_matches@, blocks2@ == blocks@,
    ensures r is Ok ==> ({
        let ms = valid_matches@; let n = dto.replacement@.len() as int;
        &&& forall|x: u64| #[trigger] old(uow).texts@.contains_key(x) ==> rich_of(*final(uow), x) == pieces(rich_of(*old(uow), x), blocks@, ms, 0, x, dto.replacement@, 0) && (neat(*old(uow), x) ==> neat(*final(uow), x))
        &&& stands(final(uow).positions@, old(uow).positions@, blocks@, ms, n, blocks@.len() as int)
        &&& final(uow).count@ == old(uow).count@ + gain(ms, n, ms.len() as int)
    }),
{
    let ghost o = *uow; let ghost ms = valid_matches@; let ghost rep = dto.replacement@; let ghost m = blen(rep); let ghost n = ms.len() as int;
    proof {
        blen_ge(rep); assert(m <= n * m) by (nonlinear_arith) requires n >= 1, m >= 0;
        assert forall|k: int| 0 <= k < ms.len() implies (#[trigger] ms[k]).1 <= 0x3fff_ffff && ms[k].2 < blocks@.len() by { assert(spot(o, blocks@, ms[k])); blen_ge(o.texts@[blocks@[ms[k].2 as int].id]); }
        gain_bounds(ms, rep.len() as int, n);
    }
    let n = std_char_count(&dto.replacement) as i64;
    let (c, d) = replace_matches(uow, blocks, valid_matches, dto)?;
    proof { still_steady(*uow, o, blocks2@); }
    let t = move_behind(uow, blocks2, again, doc_id, n, d)?;
    count_again(uow, doc_id, t)
}
}
