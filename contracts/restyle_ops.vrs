pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
pub open spec fn over<T>(f: Option<T>, d: Option<T>) -> Option<T> { if d is Some { d } else { f } }
//@ item crates/common/src/format_runs.rs CharacterFormat
//@ item crates/common/src/format_runs.rs FormatRun
impl PartialEqSpecImpl for CharacterFormat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(PartialEq) on CharacterFormat is structural equality
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl Clone for CharacterFormat {
    #[verifier::external_body] // TRUSTED: derive(Clone) on CharacterFormat returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for FormatRun {
    #[verifier::external_body] // TRUSTED: derive(Clone) on FormatRun returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: String::clone returns an equal value
pub fn std_clone_string(s: &String) -> (r: String) ensures r == *s { s.clone() }
#[verifier::external_body] // TRUSTED: String::is_empty
pub fn std_no_chars(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
/// the format of text without a run
pub uninterp spec fn neutral() -> CharacterFormat;
#[verifier::external_body] // TRUSTED: derive(Default) on CharacterFormat
pub fn std_neutral() -> (r: CharacterFormat) ensures r == neutral() { unimplemented!() }
//@ use run_spec.vrs
pub open spec fn shown(s: Seq<FormatRun>, b: int) -> CharacterFormat { match fmt_at(s, b) { Some(f) => f, None => neutral() } }
//@ fn FILE merge_dto
ensures r == overlaid(*base, *dto),
//@ ret r
//@ rw v.clone() => std_clone_string(v)
//@ rw family.clone() => std_clone_string(family)
//@ rw family.is_empty() => std_no_chars(family)
//@ end
// ---- the runs of a range, restyled
pub open spec fn restyled_at(n: Seq<FormatRun>, o: Seq<FormatRun>, d: DTO, b: int) -> bool { shown(n, b) == overlaid(shown(o, b), d) }
pub open spec fn restyled(n: Seq<FormatRun>, o: Seq<FormatRun>, d: DTO, lo: int, hi: int) -> bool { wf(n) && within(n, lo, hi) && forall|b: int| lo <= b < hi ==> #[trigger] restyled_at(n, o, d, b) }
pub open spec fn free(o: Seq<FormatRun>, lo: int, hi: int) -> bool { forall|b: int| lo <= b < hi ==> #[trigger] none_covers(o, b) }
pub proof fn outside(n: Seq<FormatRun>, lo: int, hi: int, b: int) requires within(n, lo, hi), !(lo <= b < hi), ensures fmt_at(n, b) is None { fmt_at_miss(n, b); }
pub proof fn add_run(n: Seq<FormatRun>, o: Seq<FormatRun>, d: DTO, lo: int, c: int, r: FormatRun)
    requires restyled(n, o, d, lo, c), lo <= c <= r.byte_start, free(o, c, r.byte_start as int), overlaid(neutral(), d) == neutral() || c == r.byte_start, r.byte_start < r.byte_end,
        forall|b: int| r.byte_start <= b < r.byte_end ==> r.format == overlaid(#[trigger] shown(o, b), d),
    ensures restyled(n.push(r), o, d, lo, r.byte_end as int),
{
    let m = n.push(r);
    assert forall|b: int| lo <= b < r.byte_end implies #[trigger] restyled_at(m, o, d, b) by {
        fmt_at_push(n, r, b);
        if b < c { assert(restyled_at(n, o, d, b)); } else if b < r.byte_start { outside(n, lo, c, b); assert(none_covers(o, b)); fmt_at_miss(o, b); } else { assert(r.format == overlaid(shown(o, b), d)); }
    }
    assert forall|i: int| 0 <= i < m.len() implies lo <= (#[trigger] m[i]).byte_start && m[i].byte_end <= r.byte_end && m[i].byte_start < m[i].byte_end by { if i < n.len() { assert(m[i] == n[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).byte_end <= (#[trigger] m[j]).byte_start by { assert(m[i] == n[i]); if j < n.len() { assert(m[j] == n[j]); } }
}
pub proof fn add_none(n: Seq<FormatRun>, o: Seq<FormatRun>, d: DTO, lo: int, c: int, hi: int)
    requires restyled(n, o, d, lo, c), lo <= c <= hi, free(o, c, hi), overlaid(neutral(), d) == neutral() || c == hi,
    ensures restyled(n, o, d, lo, hi),
{
    assert forall|b: int| lo <= b < hi implies #[trigger] restyled_at(n, o, d, b) by { if b < c { } else { outside(n, lo, c, b); assert(none_covers(o, b)); fmt_at_miss(o, b); } }
}
/// no run of s covers a byte of the range
pub open spec fn clear_of(s: Seq<FormatRun>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).byte_end <= lo || s[i].byte_start >= hi || lo >= hi }
pub proof fn is_free(o: Seq<FormatRun>, k: int, lo: int, hi: int)
    requires 0 <= k <= o.len(), clear_of(o.take(k), lo, hi), forall|i: int| k <= i < o.len() ==> (#[trigger] o[i]).byte_start >= hi,
    ensures free(o, lo, hi),
{ assert forall|b: int| lo <= b < hi implies #[trigger] none_covers(o, b) by { assert forall|i: int| 0 <= i < o.len() implies !covers(#[trigger] o[i], b) by { if i < k { assert(o.take(k)[i] == o[i]); } } } }
/// runs need at least a byte each
pub proof fn few(s: Seq<FormatRun>)
    requires wf(s),
    ensures s.len() <= 0x1_0000_0000, s.len() > 0 ==> s.len() <= s.last().byte_end,
    decreases s.len(),
{ if s.len() > 1 { few(s.drop_last()); assert(s[s.len() - 2].byte_end <= s[s.len() - 1].byte_start); } }
pub fn max_u32(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min_u32(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// one run of the old list, and the gap before it
pub proof fn one_run(pre: Seq<FormatRun>, n: Seq<FormatRun>, o: Seq<FormatRun>, d: DTO, lo: int, c: int, hi: int, k: int, gap: bool, c2: int)
    requires lo < hi, wf(o), 0 <= k < o.len(), lo <= c <= hi, restyled(pre, o, d, lo, c), clear_of(o.take(k), c, hi), c == lo || o[k].byte_start >= c, gap == (overlaid(neutral(), d) != neutral()),
        (o[k].byte_end <= lo || o[k].byte_start >= hi) ==> n == pre && c2 == c,
        !(o[k].byte_end <= lo || o[k].byte_start >= hi) ==> ({
            let os = if o[k].byte_start >= lo { o[k].byte_start as int } else { lo }; let oe = if o[k].byte_end <= hi { o[k].byte_end as int } else { hi };
            let r = FormatRun { byte_start: os as u32, byte_end: oe as u32, format: overlaid(o[k].format, d) };
            c2 == oe && n == if gap && os > c { pre.push(FormatRun { byte_start: c as u32, byte_end: os as u32, format: overlaid(neutral(), d) }).push(r) } else { pre.push(r) }
        }),
        0 <= lo, hi <= u32::MAX,
    ensures lo <= c2 <= hi, restyled(n, o, d, lo, c2), clear_of(o.take(k + 1), c2, hi), forall|i: int| k < i < o.len() ==> c2 == lo || (#[trigger] o[i]).byte_start >= c2,
{
    let t = o.take(k + 1);
    if o[k].byte_end <= lo || o[k].byte_start >= hi {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).byte_end <= c2 || t[i].byte_start >= hi || c2 >= hi by { if i < k { assert(t[i] == o.take(k)[i]); } }
        assert forall|i: int| k < i < o.len() implies c2 == lo || (#[trigger] o[i]).byte_start >= c2 by { assert(o[k].byte_end <= o[i].byte_start); }
    } else {
        let os = if o[k].byte_start >= lo { o[k].byte_start as int } else { lo }; let oe = if o[k].byte_end <= hi { o[k].byte_end as int } else { hi };
        let r = FormatRun { byte_start: os as u32, byte_end: oe as u32, format: overlaid(o[k].format, d) };
        assert(o[k].byte_start < o[k].byte_end);
        assert forall|i: int| k <= i < o.len() implies (#[trigger] o[i]).byte_start >= os || os == lo by { if i > k { assert(o[k].byte_end <= o[i].byte_start); } }
        if os > c {
            assert(clear_of(o.take(k), c, os)) by { assert forall|i: int| 0 <= i < o.take(k).len() implies (#[trigger] o.take(k)[i]).byte_end <= c || o.take(k)[i].byte_start >= os || c >= os by { assert(o[i].byte_end <= o[k].byte_start); assert(o[i].byte_start < o[i].byte_end); assert(o.take(k)[i] == o[i]); } }
            is_free(o, k, c, os);
        } else { assert(free(o, c, os)); }
        assert forall|b: int| os <= b < oe implies r.format == overlaid(#[trigger] shown(o, b), d) by { fmt_at_hit(o, k, b); }
        if gap && os > c {
            let g = FormatRun { byte_start: c as u32, byte_end: os as u32, format: overlaid(neutral(), d) };
            assert forall|b: int| c <= b < os implies g.format == overlaid(#[trigger] shown(o, b), d) by { assert(none_covers(o, b)); fmt_at_miss(o, b); }
            assert(free(o, c, c));
            add_run(pre, o, d, lo, c, g);
            assert(free(o, os, os));
            add_run(pre.push(g), o, d, lo, os, r);
        } else { add_run(pre, o, d, lo, c, r); }
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).byte_end <= c2 || t[i].byte_start >= hi || c2 >= hi by { if i < k { assert(o[i].byte_end <= o[k].byte_start); assert(t[i] == o[i]); } }
        assert forall|i: int| k < i < o.len() implies c2 == lo || (#[trigger] o[i]).byte_start >= c2 by { assert(o[k].byte_end <= o[i].byte_start); }
    }
}
//@ rw CharacterFormat::default() => std_neutral()
//@ fn FILE build_replacement_runs
requires wf(existing_runs@), byte_start < byte_end,
ensures restyled(r@, existing_runs@, *dto, byte_start as int, byte_end as int),
//@ ret r
//@ rw std::cmp::max($a, $b) => max_u32($a, $b)
//@ rw std::cmp::min($a, $b) => min_u32($a, $b)
//@ top
let o = existing_runs@;
assert(clear_of(o.take(0), byte_start as int, byte_end as int));
assert(restyled(Seq::<FormatRun>::empty(), o, *dto, byte_start as int, byte_start as int));
//@ loop 0 it
invariant
    wf(existing_runs@), byte_start < byte_end, byte_start <= cursor <= byte_end, it.seq().len() == existing_runs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == existing_runs@[i],
    gap_format == overlaid(neutral(), *dto), gap_changes == (overlaid(neutral(), *dto) != neutral()),
    restyled(out@, existing_runs@, *dto, byte_start as int, cursor as int), clear_of(existing_runs@.take(it.index@ as int), cursor as int, byte_end as int),
    forall|i: int| it.index@ <= i < existing_runs@.len() ==> cursor == byte_start || (#[trigger] existing_runs@[i]).byte_start >= cursor,
//@ loop 0 top
//raw let ghost pre = out@; let ghost c = cursor as int; proof { assert(*it.seq()[it.index@ as int] == existing_runs@[it.index@ as int]); }
//@ loop 0 bottom
one_run(pre, out@, existing_runs@, *dto, byte_start as int, c, byte_end as int, it.index@ as int, gap_changes, cursor as int);
//@ loop 0 after
//raw let ghost pre = out@; proof { let o = existing_runs@; let e = byte_end as int; let c = cursor as int;
    is_free(o, o.len() as int, c, e); assert(o.take(o.len() as int) =~= o);
    if c < e && gap_changes { let g = FormatRun { byte_start: cursor, byte_end, format: gap_format }; assert forall|b: int| c <= b < e implies g.format == overlaid(#[trigger] shown(o, b), *dto) by { assert(none_covers(o, b)); fmt_at_miss(o, b); } assert(free(o, c, c)); add_run(pre, o, *dto, byte_start as int, c, g); }
    else { add_none(pre, o, *dto, byte_start as int, c, e); } }
//@ end
// ---- the store
pub open spec fn mergeable_free(s: Seq<FormatRun>) -> bool { canonical(s) }
/// what a range shows after `repl` took its place
pub open spec fn spliced(old_: Seq<FormatRun>, lo: int, hi: int, repl: Seq<FormatRun>, b: int) -> Option<CharacterFormat> {
    if lo <= b < hi { fmt_at(repl, b) } else { fmt_at(old_, b) }
}
#[verifier::external_body] // TRUSTED: splice_range, as proved in format_runs
pub fn splice_range(runs: &mut Vec<FormatRun>, range: std::ops::Range<u32>, replacement: Vec<FormatRun>)
    requires wf(old(runs)@), wf(replacement@), range.start <= range.end, within(replacement@, range.start as int, range.end as int), old(runs).len() + replacement.len() <= usize::MAX,
    ensures canonical(final(runs)@), forall|b: int| #[trigger] fmt_at(final(runs)@, b) == spliced(old(runs)@, range.start as int, range.end as int, replacement@, b),
{ unimplemented!() }
#[verifier::external_body] // TRUSTED: capture_runs_in_range, as proved in format_runs
pub fn capture_runs_in_range(runs: &Vec<FormatRun>, start: u32, end: u32) -> (r: Vec<FormatRun>)
    requires wf(runs@),
    ensures wf(r@), shows_part(r@, runs@, start as int, end as int), within(r@, start as int, end as int),
{ unimplemented!() }
pub open spec fn shows_part(s: Seq<FormatRun>, t: Seq<FormatRun>, lo: int, hi: int) -> bool {
    forall|b: int| #[trigger] fmt_at(s, b) == if lo <= b < hi { fmt_at(t, b) } else { None }
}
/// the canonical list of a format function is unique
#[verifier::external_body] // TRUSTED: proved as canonical_unique in format_runs
pub proof fn canonical_unique(s: Seq<FormatRun>, t: Seq<FormatRun>) requires canonical(s), canonical(t), same(s, t), ensures s == t { }
pub type Runs = Map<u64, Seq<FormatRun>>;
pub open spec fn runs_of(m: Runs, id: u64) -> Seq<FormatRun> { if m.contains_key(id) { m[id] } else { Seq::empty() } }
pub open spec fn tidy(m: Runs) -> bool { forall|id: u64| canonical(#[trigger] runs_of(m, id)) }
pub struct RunMap { pub m: Ghost<Runs> }
impl RunMap {
    #[verifier::external_body] // TRUSTED: HashMap::get
    pub fn get(&self, id: &u64) -> (r: Option<&Vec<FormatRun>>) ensures r is Some <==> self.m@.contains_key(*id), r is Some ==> r->0@ == self.m@[*id] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::entry(..).or_default()
    pub fn of(&mut self, id: u64) -> (r: &mut Vec<FormatRun>) ensures r@ == runs_of(old(self).m@, id), final(self).m@ == old(self).m@.insert(id, final(r)@) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the two fields of Block used here
/// TRUSTED: the parts of the store formatting uses: the runs, and the text of every paragraph
pub struct Store { pub format_runs: RunMap, pub blocks: Ghost<Seq<Block>>, pub texts: Ghost<Map<u64, Seq<char>>> }
pub open spec fn clampi(k: int, n: int) -> int { if k < 0 { 0 } else if k > n { n } else { k } }
pub open spec fn off(t: Seq<char>, k: int) -> int { blen(t.take(clampi(k, t.len() as int))) as int }
impl Store {
    #[verifier::external_body] // TRUSTED: block_char_length, as proved in rope
    pub fn char_length(&self, b: &Block) -> (r: i64) ensures r == self.texts@[b.id].len() { unimplemented!() }
    #[verifier::external_body] // TRUSTED: block_char_to_byte_in_block, as proved in rope
    pub fn char_to_byte(&self, id: u64, c: usize) -> (r: (u32, usize)) ensures r.0 == off(self.texts@[id], c as int) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: every paragraph of every frame, once each
    pub fn all_blocks(&self) -> (r: Result<Vec<Block>>) ensures r is Ok ==> r->Ok_0@.to_multiset() == self.blocks@.to_multiset() && fine(r->Ok_0@, self.texts@) { unimplemented!() }
}
//@ use text_bytes.vrs
pub open spec fn fine(bs: Seq<Block>, t: Map<u64, Seq<char>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> (#[trigger] bs[i]).id != (#[trigger] bs[j]).id
    &&& forall|i: int| 0 <= i < bs.len() ==> 0 <= (#[trigger] bs[i]).document_position && bs[i].document_position + t[bs[i].id].len() <= i64::MAX && blen(t[bs[i].id]) <= u32::MAX
}
/// byte b of a text lies in one of the characters a..z
pub open spec fn in_chars(t: Seq<char>, a: int, z: int, b: int) -> bool { off(t, a) <= b < off(t, z) }
/// one paragraph after a request on the characters lo..hi of the document
pub open spec fn styled_at(n: Seq<FormatRun>, o: Seq<FormatRun>, t: Seq<char>, a: int, z: int, d: DTO, b: int) -> bool { shown(n, b) == if in_chars(t, a, z, b) { overlaid(shown(o, b), d) } else { shown(o, b) } }
pub open spec fn styled(n: Seq<FormatRun>, o: Seq<FormatRun>, t: Seq<char>, a: int, z: int, d: DTO) -> bool { forall|b: int| #[trigger] styled_at(n, o, t, a, z, d, b) }
pub open spec fn lo(d: DTO) -> int { if d.position <= d.anchor { d.position as int } else { d.anchor as int } }
pub open spec fn hi(d: DTO) -> int { if d.position <= d.anchor { d.anchor as int } else { d.position as int } }
/// a paragraph is as the request wants it
pub open spec fn done(n: Runs, o: Runs, ts: Map<u64, Seq<char>>, d: DTO, x: Block) -> bool { styled(runs_of(n, x.id), runs_of(o, x.id), ts[x.id], lo(d) - x.document_position, hi(d) - x.document_position, d) }
pub open spec fn listed(bs: Seq<Block>, id: u64) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).id == id }
/// every character between the two positions of the request has it laid over its format, every other keeps its format
pub open spec fn formatted(n: Runs, o: Runs, bs: Seq<Block>, ts: Map<u64, Seq<char>>, d: DTO) -> bool {
    &&& forall|i: int| 0 <= i < bs.len() ==> done(n, o, ts, d, #[trigger] bs[i])
    &&& forall|id: u64| !listed(bs, id) ==> #[trigger] runs_of(n, id) == runs_of(o, id)
}
//@ item FILE BlockFormatInverse
pub open spec fn entered(inv: Seq<BlockFormatInverse>, id: u64) -> bool { exists|i: int| 0 <= i < inv.len() && (#[trigger] inv[i]).block_id == id }
pub open spec fn back_at(e: BlockFormatInverse, n: Runs, o: Runs, b: int) -> bool { spliced(runs_of(n, e.block_id), e.byte_range.0 as int, e.byte_range.1 as int, e.prior_runs@, b) == fmt_at(runs_of(o, e.block_id), b) }
pub open spec fn back(e: BlockFormatInverse, n: Runs, o: Runs) -> bool { wf(e.prior_runs@) && within(e.prior_runs@, e.byte_range.0 as int, e.byte_range.1 as int) && e.byte_range.0 <= e.byte_range.1 && forall|b: int| #[trigger] back_at(e, n, o, b) }
/// what was kept takes n back to o
pub open spec fn restores(inv: Seq<BlockFormatInverse>, n: Runs, o: Runs) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < inv.len() ==> (#[trigger] inv[i]).block_id != (#[trigger] inv[j]).block_id
    &&& forall|i: int| 0 <= i < inv.len() ==> back(#[trigger] inv[i], n, o)
    &&& forall|id: u64| !entered(inv, id) ==> #[trigger] runs_of(n, id) == runs_of(o, id)
}
pub open spec fn same_runs(n: Runs, o: Runs) -> bool { forall|id: u64| #[trigger] runs_of(n, id) == runs_of(o, id) }
pub fn max_i64(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min_i64(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub proof fn off_mono(t: Seq<char>, a: int, b: int)
    ensures a <= b ==> off(t, a) <= off(t, b), 0 <= off(t, a) <= blen(t), a <= 0 ==> off(t, a) == 0, a >= t.len() ==> off(t, a) == blen(t),
{ let n = t.len() as int; if a <= b { blen_mono(t, clampi(a, n), clampi(b, n)); } blen_mono(t, clampi(a, n), n); assert(t.take(n) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); blen_ge(t.take(0)); }
pub open spec fn one_set(m: Runs, id: u64, v: Seq<FormatRun>) -> Runs { m.insert(id, v) }
/// one paragraph was restyled
pub proof fn one_block(m: Runs, n: Runs, id: u64, t: Seq<char>, a: int, z: int, d: DTO, bs: int, be: int, rep: Seq<FormatRun>)
    requires tidy(m), bs < be, bs == off(t, a), be == off(t, z), n == m.insert(id, runs_of(n, id)), n.contains_key(id), canonical(runs_of(n, id)), restyled(rep, runs_of(m, id), d, bs, be),
        forall|b: int| #[trigger] fmt_at(runs_of(n, id), b) == spliced(runs_of(m, id), bs, be, rep, b),
    ensures styled(runs_of(n, id), runs_of(m, id), t, a, z, d), tidy(n), forall|o: u64| o != id ==> #[trigger] runs_of(n, o) == runs_of(m, o),
{
    let x = runs_of(n, id); let y = runs_of(m, id);
    assert forall|b: int| #[trigger] styled_at(x, y, t, a, z, d, b) by { assert(fmt_at(x, b) == spliced(y, bs, be, rep, b)); if bs <= b < be { assert(restyled_at(rep, y, d, b)); } }
    assert forall|o: u64| canonical(#[trigger] runs_of(n, o)) by { if o != id { assert(canonical(runs_of(m, o))); assert(runs_of(n, o) == runs_of(m, o)); } }
}
pub proof fn kept(m: Runs, n: Runs, e: BlockFormatInverse, rep: Seq<FormatRun>)
    requires wf(e.prior_runs@), within(e.prior_runs@, e.byte_range.0 as int, e.byte_range.1 as int), e.byte_range.0 <= e.byte_range.1, shows_part(e.prior_runs@, runs_of(m, e.block_id), e.byte_range.0 as int, e.byte_range.1 as int),
        forall|b: int| #[trigger] fmt_at(runs_of(n, e.block_id), b) == spliced(runs_of(m, e.block_id), e.byte_range.0 as int, e.byte_range.1 as int, rep, b),
    ensures back(e, n, m),
{ assert forall|b: int| #[trigger] back_at(e, n, m, b) by { assert(fmt_at(runs_of(n, e.block_id), b) == spliced(runs_of(m, e.block_id), e.byte_range.0 as int, e.byte_range.1 as int, rep, b)); assert(fmt_at(e.prior_runs@, b) == if e.byte_range.0 <= b < e.byte_range.1 { fmt_at(runs_of(m, e.block_id), b) } else { None }); } }
/// where the paragraphs 0..k stand after k steps
pub open spec fn so_far(n: Runs, o: Runs, bs: Seq<Block>, ts: Map<u64, Seq<char>>, d: DTO, k: int, inv: Seq<BlockFormatInverse>) -> bool {
    &&& tidy(n) && restores(inv, n, o)
    &&& forall|i: int| 0 <= i < k ==> done(n, o, ts, d, #[trigger] bs[i])
    &&& forall|id: u64| !listed(bs.take(k), id) ==> #[trigger] runs_of(n, id) == runs_of(o, id)
    &&& forall|i: int| 0 <= i < inv.len() ==> listed(bs.take(k), (#[trigger] inv[i]).block_id)
}
pub proof fn take_listed(bs: Seq<Block>, k: int, id: u64)
    requires 0 <= k < bs.len(),
    ensures listed(bs.take(k + 1), id) <==> listed(bs.take(k), id) || id == bs[k].id, listed(bs.take(k), id) ==> exists|i: int| 0 <= i < k && (#[trigger] bs[i]).id == id,
{
    if listed(bs.take(k), id) { let i = choose|i: int| 0 <= i < bs.take(k).len() && (#[trigger] bs.take(k)[i]).id == id; assert(bs[i].id == id); assert(bs.take(k + 1)[i].id == id); }
    assert(bs.take(k + 1)[k] == bs[k]);
    if listed(bs.take(k + 1), id) { let i = choose|i: int| 0 <= i < bs.take(k + 1).len() && (#[trigger] bs.take(k + 1)[i]).id == id; if i < k { assert(bs.take(k)[i].id == id); } }
}
/// a paragraph that has no character in range
pub proof fn skipped(n: Runs, o: Runs, bs: Seq<Block>, ts: Map<u64, Seq<char>>, d: DTO, k: int, inv: Seq<BlockFormatInverse>)
    requires so_far(n, o, bs, ts, d, k, inv), 0 <= k < bs.len(), fine(bs, ts), off(ts[bs[k].id], lo(d) - bs[k].document_position) >= off(ts[bs[k].id], hi(d) - bs[k].document_position),
    ensures so_far(n, o, bs, ts, d, k + 1, inv),
{
    let x = bs[k]; take_listed(bs, k, x.id);
    if listed(bs.take(k), x.id) { let i = choose|i: int| 0 <= i < k && (#[trigger] bs[i]).id == x.id; assert(false); }
    assert(runs_of(n, x.id) == runs_of(o, x.id));
    let t = ts[x.id]; let a = lo(d) - x.document_position; let z = hi(d) - x.document_position;
    assert(done(n, o, ts, d, x)) by { assert forall|b: int| #[trigger] styled_at(runs_of(n, x.id), runs_of(o, x.id), t, a, z, d, b) by { } }
    assert forall|id: u64| !listed(bs.take(k + 1), id) implies #[trigger] runs_of(n, id) == runs_of(o, id) by { take_listed(bs, k, id); }
    assert forall|i: int| 0 <= i < inv.len() implies listed(bs.take(k + 1), (#[trigger] inv[i]).block_id) by { take_listed(bs, k, inv[i].block_id); }
}
pub proof fn one_more(m: Runs, n: Runs, o: Runs, bs: Seq<Block>, ts: Map<u64, Seq<char>>, d: DTO, k: int, inv: Seq<BlockFormatInverse>, e: BlockFormatInverse)
    requires so_far(m, o, bs, ts, d, k, inv), 0 <= k < bs.len(), fine(bs, ts), tidy(n), e.block_id == bs[k].id, back(e, n, m), forall|id: u64| id != bs[k].id ==> #[trigger] runs_of(n, id) == runs_of(m, id),
        styled(runs_of(n, bs[k].id), runs_of(m, bs[k].id), ts[bs[k].id], lo(d) - bs[k].document_position, hi(d) - bs[k].document_position, d),
    ensures so_far(n, o, bs, ts, d, k + 1, inv.push(e)),
{
    let x = bs[k]; let w = inv.push(e); take_listed(bs, k, x.id);
    if listed(bs.take(k), x.id) { let i = choose|i: int| 0 <= i < k && (#[trigger] bs[i]).id == x.id; assert(false); }
    assert(runs_of(m, x.id) == runs_of(o, x.id));
    assert forall|i: int| 0 <= i < k + 1 implies done(n, o, ts, d, #[trigger] bs[i]) by { if i < k { assert(done(m, o, ts, d, bs[i])); assert(bs[i].id != bs[k].id); assert(runs_of(n, bs[i].id) == runs_of(m, bs[i].id)); } }
    assert forall|id: u64| !listed(bs.take(k + 1), id) implies #[trigger] runs_of(n, id) == runs_of(o, id) by { take_listed(bs, k, id); assert(runs_of(m, id) == runs_of(o, id)); }
    assert forall|i: int| 0 <= i < w.len() implies listed(bs.take(k + 1), (#[trigger] w[i]).block_id) by { take_listed(bs, k, w[i].block_id); if i < inv.len() { assert(w[i] == inv[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).block_id != (#[trigger] w[j]).block_id by { assert(w[i] == inv[i]); assert(listed(bs.take(k), inv[i].block_id)); if j < inv.len() { assert(w[j] == inv[j]); } }
    assert forall|i: int| 0 <= i < w.len() implies back(#[trigger] w[i], n, o) by {
        if i < inv.len() {
            let f = inv[i]; assert(w[i] == f); assert(back(f, m, o)); assert(listed(bs.take(k), f.block_id)); assert(runs_of(n, f.block_id) == runs_of(m, f.block_id));
            assert forall|b: int| #[trigger] back_at(f, n, o, b) by { assert(back_at(f, m, o, b)); }
        } else { assert forall|b: int| #[trigger] back_at(e, n, o, b) by { assert(back_at(e, n, m, b)); } }
    }
    assert forall|id: u64| !entered(w, id) implies #[trigger] runs_of(n, id) == runs_of(o, id) by {
        assert(w[inv.len() as int] == e); assert(id != x.id);
        if entered(inv, id) { let i = choose|i: int| 0 <= i < inv.len() && (#[trigger] inv[i]).block_id == id; assert(w[i].block_id == id); }
        assert(runs_of(m, id) == runs_of(o, id));
    }
}
//@ rwstmt let runs_map = store.format_runs.read().unwrap(); =>
//@ rwstmt let mut runs_map = store.format_runs.write().unwrap(); =>
//@ rw runs_map.get(&block.id).map(|runs| $e).unwrap_or_default() => (match store.format_runs.get(&block.id) { Some(runs) => $e, None => Vec::new() })
//@ rw runs_map.entry($id).or_default() => store.format_runs.of($id)
//@ rw block_char_length(block, &store) => store.char_length(block)
//@ rw block_char_to_byte_in_block(&store, $i, $c) => store.char_to_byte($i, $c)
//@ rwstmt let prior_image_formats = $x; => let prior_image_formats: Vec<(u32, CharacterFormat)> = Vec::new();
//@ rwstmt debug_assert_well_formed($a, $b); =>
//@ fn FILE EXEC
//@ from let range_start = std::cmp::min(dto.position, dto.anchor);
//@ to for block in &blocks $b
//@ rename style_blocks
//@ yields Ok(inverse)
//@ sig (store: &mut Store, blocks: Vec<Block>, dto: &DTO) -> Result<Vec<BlockFormatInverse>>
requires
    tidy(old(store).format_runs.m@), fine(blocks@, old(store).texts@), 0 <= dto.position, 0 <= dto.anchor,
ensures
    final(store).texts == old(store).texts, final(store).blocks == old(store).blocks,
    r is Ok, tidy(final(store).format_runs.m@), formatted(final(store).format_runs.m@, old(store).format_runs.m@, blocks@, old(store).texts@, *dto), restores(r->Ok_0@, final(store).format_runs.m@, old(store).format_runs.m@),
//@ ret r
//@ rwstmt let store = uow.store(); =>
//@ rwstmt { let mut images_map = $x; $b } =>
//@ rw std::cmp::max($a, $b) => max_i64($a, $b)
//@ rw std::cmp::min($a, $b) => min_i64($a, $b)
//@ top
//raw let ghost o = store.format_runs.m@; let ghost ts = store.texts@;
//@ loop 0 it
invariant
    it.seq().len() == blocks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == blocks@[i], range_start == lo(*dto), range_end == hi(*dto), 0 <= range_start <= range_end,
    fine(blocks@, ts), store.texts@ == ts, so_far(store.format_runs.m@, o, blocks@, ts, *dto, it.index@ as int, inverse@), store.texts == old(store).texts, store.blocks == old(store).blocks, o == old(store).format_runs.m@, ts == old(store).texts@,
//@ loop 0 top
//raw let ghost m = store.format_runs.m@; let ghost was = inverse@; let ghost mut rep: Seq<FormatRun> = Seq::empty(); let ghost k = it.index@ as int; let ghost a = range_start - block.document_position; let ghost z = range_end - block.document_position;
proof { assert(*it.seq()[k] == blocks@[k]); assert(canonical(runs_of(m, block.id))); assert(0 <= blocks@[k].document_position && blocks@[k].document_position + ts[blocks@[k].id].len() <= i64::MAX && blen(ts[blocks@[k].id]) <= u32::MAX); off_mono(ts[block.id], a, z); off_mono(ts[block.id], z, a); blen_ge(ts[block.id]); }
//@ ahead splice_range($r, $g, $x);
//raw proof { rep = replacement@; few(runs@); few(replacement@); }
//@ loop 0 bottom
if inverse@.len() > was.len() {
    let e = inverse@.last(); let n = store.format_runs.m@;
    assert(inverse@ == was.push(e));
    one_block(m, n, block.id, ts[block.id], a as int, z as int, *dto, e.byte_range.0 as int, e.byte_range.1 as int, rep);
    kept(m, n, e, rep);
    one_more(m, n, o, blocks@, ts, *dto, k, was, e);
} else { skipped(m, o, blocks@, ts, *dto, k, inverse@); }
//@ loop 0 after
assert(blocks@.take(blocks@.len() as int) =~= blocks@);
//@ end
// ---- taking a request back
#[verifier::external_body] // TRUSTED: Vec<FormatRun>::clone
pub fn std_clone_runs(v: &Vec<FormatRun>) -> (r: Vec<FormatRun>) ensures r@ == v@ { v.clone() }
pub proof fn one_back(n0: Runs, m: Runs, n: Runs, o: Runs, inv: Seq<BlockFormatInverse>, k: int)
    requires halfway(n0, m, o, inv, k), 0 <= k < inv.len(), restores(inv, n0, o), tidy(o), forall|id: u64| id != inv[k].block_id ==> #[trigger] runs_of(n, id) == runs_of(m, id), canonical(runs_of(n, inv[k].block_id)),
        forall|b: int| #[trigger] fmt_at(runs_of(n, inv[k].block_id), b) == spliced(runs_of(m, inv[k].block_id), inv[k].byte_range.0 as int, inv[k].byte_range.1 as int, inv[k].prior_runs@, b),
    ensures halfway(n0, n, o, inv, k + 1),
{
    let e = inv[k]; let id = e.block_id;
    assert(back(e, n0, o));
    assert(!entered(inv.take(k), id)) by { if entered(inv.take(k), id) { let i = choose|i: int| 0 <= i < inv.take(k).len() && (#[trigger] inv.take(k)[i]).block_id == id; assert(inv[i].block_id != inv[k].block_id); } }
    assert(runs_of(m, id) == runs_of(n0, id));
    assert forall|b: int| #[trigger] fmt_at(runs_of(n, id), b) == fmt_at(runs_of(o, id), b) by { assert(back_at(e, n0, o, b)); assert(fmt_at(runs_of(n, id), b) == spliced(runs_of(m, id), e.byte_range.0 as int, e.byte_range.1 as int, e.prior_runs@, b)); }
    assert(canonical(runs_of(o, id)));
    canonical_unique(runs_of(n, id), runs_of(o, id));
    let t = inv.take(k + 1); assert(t[k] == e);
    assert forall|x: u64| #[trigger] runs_of(n, x) == if entered(t, x) { runs_of(o, x) } else { runs_of(n0, x) } by {
        if x == id { assert(entered(t, x)); }
        else {
            if entered(inv.take(k), x) { let i = choose|i: int| 0 <= i < inv.take(k).len() && (#[trigger] inv.take(k)[i]).block_id == x; assert(t[i].block_id == x); }
            if entered(t, x) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).block_id == x; assert(i < k); assert(inv.take(k)[i].block_id == x); }
            assert(runs_of(n, x) == runs_of(m, x));
        }
    }
    assert forall|x: u64| canonical(#[trigger] runs_of(n, x)) by { if x != id { assert(canonical(runs_of(m, x))); assert(runs_of(n, x) == runs_of(m, x)); } }
}
/// the first k paragraphs are back
pub open spec fn halfway(n0: Runs, m: Runs, o: Runs, inv: Seq<BlockFormatInverse>, k: int) -> bool { tidy(m) && forall|x: u64| #[trigger] runs_of(m, x) == if entered(inv.take(k), x) { runs_of(o, x) } else { runs_of(n0, x) } }
pub open spec fn came_from(inv: Seq<BlockFormatInverse>, n: Runs, o: Runs) -> bool { tidy(o) && restores(inv, n, o) }
pub proof fn one_past(inv: Seq<BlockFormatInverse>, n: Runs, o: Runs, p: Runs)
    requires came_from(inv, n, o), came_from(inv, n, p),
    ensures same_runs(o, p),
{
    assert forall|id: u64| #[trigger] runs_of(o, id) == runs_of(p, id) by {
        if entered(inv, id) {
            let i = choose|i: int| 0 <= i < inv.len() && (#[trigger] inv[i]).block_id == id; let e = inv[i];
            assert(back(e, n, o) && back(e, n, p));
            assert forall|b: int| #[trigger] fmt_at(runs_of(o, id), b) == fmt_at(runs_of(p, id), b) by { assert(back_at(e, n, o, b) && back_at(e, n, p, b)); }
            assert(canonical(runs_of(o, id)) && canonical(runs_of(p, id)));
            canonical_unique(runs_of(o, id), runs_of(p, id));
        } else { assert(runs_of(n, id) == runs_of(o, id)); }
    }
}
pub proof fn all_back(inv: Seq<BlockFormatInverse>, n0: Runs, m: Runs, o: Runs)
    requires came_from(inv, n0, o), halfway(n0, m, o, inv, inv.len() as int),
    ensures forall|p: Runs| #[trigger] came_from(inv, n0, p) ==> same_runs(m, p),
{
    assert(inv.take(inv.len() as int) =~= inv);
    assert forall|p: Runs| #[trigger] came_from(inv, n0, p) implies same_runs(m, p) by {
        one_past(inv, n0, o, p);
        assert forall|id: u64| #[trigger] runs_of(m, id) == runs_of(p, id) by { assert(runs_of(o, id) == runs_of(p, id)); if !entered(inv, id) { assert(runs_of(n0, id) == runs_of(o, id)); } }
    }
}
//@ fn FILE apply_inverse
requires tidy(old(uow).format_runs.m@), exists|o: Runs| #[trigger] came_from(inverse@, old(uow).format_runs.m@, o),
ensures r is Ok, final(uow).blocks == old(uow).blocks, final(uow).texts == old(uow).texts,
    tidy(final(uow).format_runs.m@), forall|o: Runs| #[trigger] came_from(inverse@, old(uow).format_runs.m@, o) ==> same_runs(final(uow).format_runs.m@, o),
//@ ret r
//@ rwtype &mut Box<dyn UOW> => &mut Store
//@ rwstmt let store = uow.store(); =>
//@ rwstmt { let mut images_map = $x; $b } =>
//@ rw runs_map.entry($id).or_default() => uow.format_runs.of($id)
//@ rw entry.prior_runs.clone() => std_clone_runs(&entry.prior_runs)
//@ top
//raw let ghost n0 = uow.format_runs.m@; let ghost o = choose|o: Runs| #[trigger] came_from(inverse@, n0, o); proof { assert(inverse@.take(0) =~= Seq::empty()); }
//@ loop 0 it
invariant
    it.seq().len() == inverse@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == inverse@[i], came_from(inverse@, n0, o), halfway(n0, uow.format_runs.m@, o, inverse@, it.index@ as int), uow.blocks == old(uow).blocks, uow.texts == old(uow).texts, n0 == old(uow).format_runs.m@,
//@ loop 0 top
//raw let ghost m = uow.format_runs.m@; let ghost k = it.index@ as int; proof { assert(*it.seq()[k] == inverse@[k]); assert(back(inverse@[k], n0, o)); assert(canonical(runs_of(m, entry.block_id))); few(runs_of(m, entry.block_id)); few(entry.prior_runs@); }
//@ loop 0 bottom
one_back(n0, m, uow.format_runs.m@, o, inverse@, k);
//@ loop 0 after
all_back(inverse@, n0, uow.format_runs.m@, o);
//@ end
// ---- the command
pub fn EXEC(uow: &mut Store, dto: &DTO) -> (r: Result<Vec<BlockFormatInverse>>)
    requires tidy(old(uow).format_runs.m@), 0 <= dto.position, 0 <= dto.anchor,
    ensures
        final(uow).texts == old(uow).texts, final(uow).blocks == old(uow).blocks,
        r is Ok ==> tidy(final(uow).format_runs.m@) && formatted(final(uow).format_runs.m@, old(uow).format_runs.m@, old(uow).blocks@, old(uow).texts@, *dto) && came_from(r->Ok_0@, final(uow).format_runs.m@, old(uow).format_runs.m@),
        r is Err ==> final(uow).format_runs == old(uow).format_runs,
{
    let blocks = match uow.all_blocks() { Ok(b) => b, Err(e) => { return Err(e); } };
    proof { any_order(blocks@, uow.blocks@); }
    style_blocks(uow, blocks, dto)
}
pub proof fn any_order(a: Seq<Block>, b: Seq<Block>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|n: Runs, o: Runs, ts: Map<u64, Seq<char>>, d: DTO| formatted(n, o, a, ts, d) ==> #[trigger] formatted(n, o, b, ts, d),
{
    broadcast use vstd::seq_lib::group_seq_lib_default, vstd::seq_lib::group_to_multiset_ensures;
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|n: Runs, o: Runs, ts: Map<u64, Seq<char>>, d: DTO| formatted(n, o, a, ts, d) implies #[trigger] formatted(n, o, b, ts, d) by {
        assert forall|i: int| 0 <= i < b.len() implies done(n, o, ts, d, #[trigger] b[i]) by { assert(b.contains(b[i])); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(done(n, o, ts, d, a[j])); }
        assert forall|id: u64| !listed(b, id) implies #[trigger] runs_of(n, id) == runs_of(o, id) by {
            if listed(a, id) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).id == id; assert(a.contains(a[j])); assert(b.to_multiset().count(a[j]) > 0); assert(b.contains(a[j])); let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(b[i].id == id); }
        }
    }
}
//@ rwtype Box<dyn FACT> => Store
//@ item FILE CASE
#[verifier::external_body] // TRUSTED: derive(Clone)
pub fn std_clone_inv(v: &Vec<BlockFormatInverse>) -> (r: Vec<BlockFormatInverse>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] // TRUSTED: derive(Clone)
pub fn std_clone_dto(v: &DTO) -> (r: DTO) ensures r == *v { unimplemented!() }
//@ rwstmt let mut uow = self.uow_factory.create(); =>
//@ rwstmt uow.begin_transaction()?; =>
//@ rwstmt uow.commit()?; =>
//@ rw EXEC(&mut uow, $d)? => EXEC(&mut self.uow_factory, $d)?
//@ rw apply_inverse(&mut uow, &inverse)? => apply_inverse(&mut self.uow_factory, &inverse)?
//@ rw dto.clone() => std_clone_dto(dto)
//@ rw self.inverse.as_ref().ok_or_else(|| $e)?.clone() => (match &self.inverse { Some(v) => std_clone_inv(v), None => { return Err(Error {}); } })
//@ rw self.last_dto.as_ref().ok_or_else(|| $e)?.clone() => (match &self.last_dto { Some(v) => std_clone_dto(v), None => { return Err(Error {}); } })
impl CASE {
    pub open spec fn runs(&self) -> Runs { self.uow_factory.format_runs.m@ }
    /// the request of d took o to n, and can be taken back from n
    pub open spec fn did(&self, n: Runs, o: Runs) -> bool { self.last_dto is Some && 0 <= self.last_dto->0.position && 0 <= self.last_dto->0.anchor && self.inverse is Some && came_from(self.inverse->0@, n, o) && formatted(n, o, self.uow_factory.blocks@, self.uow_factory.texts@, self.last_dto->0) }
//@ fn FILE CASE::execute
requires tidy(old(self).runs()), 0 <= dto.position, 0 <= dto.anchor,
ensures r is Ok ==> tidy(final(self).runs()) && final(self).did(final(self).runs(), old(self).runs()) && final(self).last_dto == Some(*dto) && final(self).uow_factory.blocks == old(self).uow_factory.blocks && final(self).uow_factory.texts == old(self).uow_factory.texts,
//@ ret r
//@ end
//@ fn FILE UndoRedoCommand for CASE::undo
requires tidy(old(self).runs()), exists|o: Runs| old(self).did(old(self).runs(), o),
ensures r is Ok, tidy(final(self).runs()), forall|o: Runs| #[trigger] old(self).did(old(self).runs(), o) ==> same_runs(final(self).runs(), o), final(self).last_dto == old(self).last_dto,
    final(self).uow_factory.blocks == old(self).uow_factory.blocks, final(self).uow_factory.texts == old(self).uow_factory.texts,
//@ ret r
//@ top
let o = choose|o: Runs| old(self).did(old(self).runs(), o); assert(came_from(self.inverse->0@, self.runs(), o));
//@ end
//@ fn FILE UndoRedoCommand for CASE::redo
requires tidy(old(self).runs()), old(self).last_dto is Some, 0 <= old(self).last_dto->0.position, 0 <= old(self).last_dto->0.anchor,
ensures r is Ok ==> tidy(final(self).runs()) && final(self).did(final(self).runs(), old(self).runs()) && final(self).last_dto == old(self).last_dto && final(self).uow_factory.blocks == old(self).uow_factory.blocks && final(self).uow_factory.texts == old(self).uow_factory.texts,
//@ ret r
//@ end
}
