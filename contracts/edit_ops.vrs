//@ use run_ops.vrs
//@ use text_bytes.vrs
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
#[verifier::external_body] // TRUSTED: slicing a str at character boundaries
pub fn std_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, on_char(s@, a as int), on_char(s@, b as int),
    ensures r@ == s@.subrange(char_of(s@, a as int), char_of(s@, b as int)),
{ &s[a..b] }
#[verifier::external_body] // TRUSTED: String::push_str appends
pub fn std_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] // TRUSTED: String::push appends one character
pub fn std_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] // TRUSTED: String::new and with_capacity are empty
pub fn std_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] // TRUSTED: str::chars().count()
pub fn std_char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] // TRUSTED: str::to_string
pub fn std_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] // TRUSTED: str::char_indices: every character with its byte offset, in order
pub fn std_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == blen(s@.take(i)) && r@[i].1 == s@[i],
{ s.char_indices().collect() }
// ---- the store, as the edits see it
pub type Runs = Map<u64, Seq<FormatRun>>;
pub open spec fn runs_of(m: Runs, id: u64) -> Seq<FormatRun> { if m.contains_key(id) { m[id] } else { Seq::empty() } }
#[verifier::external_body]
pub struct RunMap { x: u8 } // TRUSTED: the map of runs by paragraph
impl RunMap {
    pub uninterp spec fn view(&self) -> Runs;
    #[verifier::external_body] // TRUSTED: HashMap::entry(..).or_default()
    pub fn of(&mut self, id: u64) -> (r: &mut Vec<FormatRun>) ensures r@ == runs_of(old(self)@, id), final(self)@ == old(self)@.insert(id, final(r)@) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::insert
    pub fn put(&mut self, id: u64, r: Vec<FormatRun>) ensures final(self)@ == old(self)@.insert(id, r@) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::get(..).cloned().unwrap_or_default()
    pub fn read(&self, id: u64) -> (r: Vec<FormatRun>) ensures r@ == runs_of(self@, id) { unimplemented!() }
}
/// TRUSTED: the parts of the store editing uses: the runs, and the text of every paragraph
pub struct Store {
    pub format_runs: RunMap, pub texts: Ghost<Map<u64, Seq<char>>>,
    pub positions: Ghost<Map<u64, i64>>, // the stored position of every paragraph
    pub count: Ghost<i64>, // the number of characters in the document's record
    pub frames: Ghost<Seq<u64>>, pub members: Ghost<Map<u64, Seq<u64>>>, // the paragraphs of every frame
    pub flow: Ghost<bool>, // positions are derived from the text rather than stored (rope_positions_match_flow)
}
/// everything but texts and runs
pub open spec fn rest_kept(n: Store, o: Store) -> bool { n.positions == o.positions && n.count == o.count && n.frames == o.frames && n.members == o.members && n.flow == o.flow }
impl Store {
    #[verifier::external_body] // proved for block_content_via_store in rope.vrs
    pub fn content(&self, block: &Block) -> (r: String) requires self.texts@.contains_key(block.id), ensures r@ == self.texts@[block.id] { unimplemented!() }
    #[verifier::external_body] // proved for rope_insert_in_block in rope.vrs
    pub fn insert_at(&mut self, id: u64, b: u32, t: &str)
        requires old(self).texts@.contains_key(id), on_char(old(self).texts@[id], b as int),
        ensures rest_kept(*final(self), *old(self)), final(self).format_runs == old(self).format_runs, final(self).texts@ == old(self).texts@.insert(id, splice(old(self).texts@[id], char_of(old(self).texts@[id], b as int), char_of(old(self).texts@[id], b as int), t@)),
    { unimplemented!() }
    #[verifier::external_body] // proved for rope_delete_in_block in rope.vrs
    pub fn delete_at(&mut self, id: u64, a: u32, b: u32)
        requires old(self).texts@.contains_key(id), a <= b, on_char(old(self).texts@[id], a as int), on_char(old(self).texts@[id], b as int),
        ensures rest_kept(*final(self), *old(self)), final(self).format_runs == old(self).format_runs, final(self).texts@ == old(self).texts@.insert(id, splice(old(self).texts@[id], char_of(old(self).texts@[id], a as int), char_of(old(self).texts@[id], b as int), Seq::empty())),
    { unimplemented!() }
    #[verifier::external_body] // proved for rope_merge_block_range in rope.vrs (which paragraphs disappear is stated there)
    pub fn join_at(&mut self, s: u64, a: u32, e: u64, b: u32)
        requires old(self).texts@.contains_key(s), old(self).texts@.contains_key(e), on_char(old(self).texts@[s], a as int), on_char(old(self).texts@[e], b as int),
        ensures rest_kept(*final(self), *old(self)), final(self).format_runs == old(self).format_runs, final(self).texts@.contains_key(s), final(self).texts@[s] == old(self).texts@[s].take(char_of(old(self).texts@[s], a as int)) + old(self).texts@[e].skip(char_of(old(self).texts@[e], b as int)),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: writing a paragraph's record touches neither texts nor runs, and of the positions only its own
    pub fn update_block(&mut self, b: &Block) -> (r: Result<Block>)
        ensures final(self).texts == old(self).texts, final(self).format_runs == old(self).format_runs, final(self).count == old(self).count, final(self).frames == old(self).frames, final(self).members == old(self).members, final(self).flow == old(self).flow,
            r is Ok ==> final(self).positions@ == old(self).positions@.insert(b.id, b.document_position),
    { unimplemented!() }
}
// ---- formats of characters
pub open spec fn look(t: Seq<char>, s: Seq<FormatRun>, i: int) -> Option<CharacterFormat> { fmt_at(s, blen(t.take(i)) as int) }
/// byte b belongs to character i
pub open spec fn in_char(t: Seq<char>, b: int, i: int) -> bool { 0 <= i < t.len() && blen(t.take(i)) <= b < blen(t.take(i + 1)) }
/// every byte of a character shows the character's format; no byte outside the text shows one
pub open spec fn even(t: Seq<char>, s: Seq<FormatRun>) -> bool {
    &&& forall|b: int, i: int| #[trigger] in_char(t, b, i) ==> fmt_at(s, b) == look(t, s, i)
    &&& forall|b: int| !(0 <= b < blen(t)) ==> #[trigger] fmt_at(s, b) is None
}
pub open spec fn styled(t: Seq<char>, s: Seq<FormatRun>) -> bool { canonical(s) && even(t, s) }
/// t, s after ins took the place of the characters from a to b: the characters around keep their formats, the new ones take the format of the character on their left
pub open spec fn written(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, ins: Seq<char>, t1: Seq<char>, s1: Seq<FormatRun>) -> bool {
    &&& t1 == splice(t, a, b, ins) && styled(t1, s1)
    &&& forall|i: int| 0 <= i < t1.len() ==> #[trigger] look(t1, s1, i) == new_look(t, s, a, b, ins.len() as int, i)
}
pub open spec fn new_look(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, n: int, i: int) -> Option<CharacterFormat> {
    if i < a { look(t, s, i) } else if i < a + n { if a > 0 { look(t, s, a - 1) } else { None } } else { look(t, s, i - n + (b - a)) }
}
pub proof fn take_step(t: Seq<char>, i: int)
    requires 0 <= i < t.len(),
    ensures blen(t.take(i + 1)) == blen(t.take(i)) + width(t[i]), width(t[i]) >= 1,
{ assert(t.take(i + 1).drop_last() =~= t.take(i)); }
pub proof fn take_all(t: Seq<char>) ensures t.take(t.len() as int) == t, t.take(0) == Seq::<char>::empty(), blen(t.take(0)) == 0 { assert(t.take(t.len() as int) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); assert(blen(Seq::<char>::empty()) == 0); }
/// the character a byte belongs to
pub proof fn find_char(t: Seq<char>, b: int) -> (i: int)
    requires 0 <= b < blen(t),
    ensures in_char(t, b, i),
    decreases t.len(),
{
    if t.len() == 0 { 0 } else {
        let n = t.len() - 1; take_step(t, n); take_all(t);
        if blen(t.take(n)) <= b { n } else {
            let u = t.take(n); let i = find_char(u, b);
            assert(u.take(i) =~= t.take(i)); assert(u.take(i + 1) =~= t.take(i + 1)); i
        }
    }
}
/// runs of a styled text end inside it
pub proof fn run_inside(t: Seq<char>, s: Seq<FormatRun>)
    requires styled(t, s),
    ensures within(s, 0, blen(t) as int),
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= (#[trigger] s[i]).byte_start && s[i].byte_end <= blen(t) by { let b = s[i].byte_end - 1; fmt_at_hit(s, i, b); assert(fmt_at(s, b) is Some); }
}
/// what byte offsets become under a splice
pub proof fn splice_bytes(t: Seq<char>, a: int, b: int, ins: Seq<char>, i: int)
    requires 0 <= a <= b <= t.len(), 0 <= i <= t.len() - (b - a) + ins.len(),
    ensures ({ let u = splice(t, a, b, ins); let n = ins.len(); u.len() == t.len() - (b - a) + n
        && (i <= a ==> blen(u.take(i)) == blen(t.take(i)))
        && (a <= i <= a + n ==> blen(u.take(i)) == blen(t.take(a)) + blen(ins.take(i - a)))
        && (a + n <= i ==> blen(u.take(i)) == blen(t.take(i - n + (b - a))) - blen(t.take(b)) + blen(t.take(a)) + blen(ins)) }),
{
    let u = splice(t, a, b, ins); let n = ins.len() as int;
    if i <= a { assert(u.take(i) =~= t.take(i)); }
    if a <= i <= a + n { assert(u.take(i) =~= t.take(a) + ins.take(i - a)); blen_add(t.take(a), ins.take(i - a)); }
    if a + n <= i {
        let j = i - n + (b - a);
        assert(u.take(i) =~= t.take(a) + ins + t.subrange(b, j)); blen_add(t.take(a) + ins, t.subrange(b, j)); blen_add(t.take(a), ins); blen_mono(t, b, j);
    }
}
/// the bytes after a splice
pub open spec fn byte_written(s: Seq<FormatRun>, lo: int, hi: int, n: int, b: int) -> Option<CharacterFormat> { if b < lo { fmt_at(s, b) } else if b < lo + n { fmt_at(s, lo - 1) } else { fmt_at(s, b - n + (hi - lo)) } }
pub open spec fn fits_bytes(s: Seq<FormatRun>, lo: int, hi: int, n: int, s1: Seq<FormatRun>) -> bool { forall|x: int| #[trigger] fmt_at(s1, x) == byte_written(s, lo, hi, n, x) }
pub proof fn one_byte(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, ins: Seq<char>, s1: Seq<FormatRun>, x: int, i: int)
    requires 0 <= a <= b <= t.len(), even(t, s), in_char(splice(t, a, b, ins), x, i), fits_bytes(s, blen(t.take(a)) as int, blen(t.take(b)) as int, blen(ins) as int, s1),
    ensures fmt_at(s1, x) == new_look(t, s, a, b, ins.len() as int, i),
{
    let u = splice(t, a, b, ins); let n = ins.len() as int; let (lo, hi, m) = (blen(t.take(a)) as int, blen(t.take(b)) as int, blen(ins) as int);
    assert(u.len() == t.len() - (b - a) + n);
    splice_bytes(t, a, b, ins, i); splice_bytes(t, a, b, ins, i + 1);
    assert(fmt_at(s1, x) == byte_written(s, lo, hi, m, x));
    if i < a { blen_mono(t, i + 1, a); assert(in_char(t, x, i)); }
    else if i < a + n {
        take_all(ins); blen_mono(ins, i + 1 - a, n); blen_mono(ins, 0, i - a);
        assert(lo <= x < lo + m);
        if a > 0 { take_step(t, a - 1); assert(in_char(t, lo - 1, a - 1)); } else { take_all(t); assert(lo == 0); assert(fmt_at(s, -1) is None); }
    } else { let j = i - n + (b - a); blen_mono(t, b, j); assert(in_char(t, x - m + (hi - lo), j)); }
}
pub proof fn no_byte(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, ins: Seq<char>, s1: Seq<FormatRun>, x: int)
    requires 0 <= a <= b <= t.len(), even(t, s), !(0 <= x < blen(splice(t, a, b, ins))), fits_bytes(s, blen(t.take(a)) as int, blen(t.take(b)) as int, blen(ins) as int, s1),
    ensures fmt_at(s1, x) is None,
{
    let u = splice(t, a, b, ins); let (lo, hi, m) = (blen(t.take(a)) as int, blen(t.take(b)) as int, blen(ins) as int);
    splice_bytes(t, a, b, ins, u.len() as int); take_all(u); take_all(t); blen_mono(t, b, t.len() as int);
    assert(fmt_at(s1, x) == byte_written(s, lo, hi, m, x));
    if x < 0 { assert(fmt_at(s, x) is None); } else { assert(x >= lo + m); assert(x - m + (hi - lo) >= blen(t)); assert(fmt_at(s, x - m + (hi - lo)) is None); }
}
pub proof fn bytes_to_chars(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, ins: Seq<char>, s1: Seq<FormatRun>)
    requires 0 <= a <= b <= t.len(), styled(t, s), canonical(s1), fits_bytes(s, blen(t.take(a)) as int, blen(t.take(b)) as int, blen(ins) as int, s1),
    ensures written(t, s, a, b, ins, splice(t, a, b, ins), s1),
{
    let u = splice(t, a, b, ins); let n = ins.len() as int;
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] look(u, s1, i) == new_look(t, s, a, b, n, i) by { take_step(u, i); one_byte(t, s, a, b, ins, s1, blen(u.take(i)) as int, i); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s1, x) == look(u, s1, i) by { one_byte(t, s, a, b, ins, s1, x, i); }
    assert forall|x: int| !(0 <= x < blen(u)) implies #[trigger] fmt_at(s1, x) is None by { no_byte(t, s, a, b, ins, s1, x); }
}
pub open spec fn clampi(k: int, n: int) -> int { if k < 0 { 0 } else if k > n { n } else { k } }
//@ fn crates/common/src/format_runs.rs logical_offset_to_byte
requires images@.len() == 0, blen(plain_text@) <= u32::MAX,
ensures r == blen(plain_text@.take(clampi(char_offset as int, plain_text@.len() as int))), at(plain_text@, r as int, clampi(char_offset as int, plain_text@.len() as int)),
//@ ret r
//@ rw plain_text.char_indices() => std_char_indices(plain_text)
//@ rw plain_text.len() => std_len(plain_text)
//@ top
take_all(plain_text@); blen_ge(plain_text@);
//@ loop 0 it
invariant
    images@.len() == 0, images_consumed == 0, char_offset > 0, blen(plain_text@) <= u32::MAX, logical == it.index@, it.index@ <= char_offset,
    it.seq().len() == plain_text@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == blen(plain_text@.take(i)),
//@ loop 0 top
//raw let ghost k = it.index@ as int; proof { assert(it.seq()[k].0 == blen(plain_text@.take(it.index@ as int))); blen_mono(plain_text@, it.index@ as int, plain_text@.len() as int); take_all(plain_text@); blen_ge(plain_text@); }
//@ loop 0 after
take_all(plain_text@);
//@ loop 1
invariant images@.len() == 0, images_consumed == 0, logical == k,
decreases images.len() - images_consumed,
//@ loop 2
invariant images@.len() == 0, images_consumed == 0,
decreases images.len() - images_consumed,
//@ end
pub open spec fn sizes(t: Seq<char>) -> bool { blen(t) <= i32::MAX }
/// in paragraph id, ins took the place of the characters from a to b; nothing else changed
pub open spec fn edited(n: Store, o: Store, id: u64, a: int, b: int, ins: Seq<char>) -> bool {
    &&& n.texts@ == o.texts@.insert(id, splice(o.texts@[id], a, b, ins))
    &&& written(o.texts@[id], runs_of(o.format_runs@, id), a, b, ins, n.texts@[id], runs_of(n.format_runs@, id))
    &&& forall|x: u64| x != id ==> #[trigger] runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)
}
pub open spec fn cut_from(s: Seq<FormatRun>, lo: int, hi: int, cut: Seq<FormatRun>) -> bool { (lo < hi ==> canonical(cut) && forall|b: int| #[trigger] fmt_at(cut, b) == removed(s, lo, hi, b)) && (lo >= hi ==> cut == s) }
pub proof fn cut_ok(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, cut: Seq<FormatRun>)
    requires 0 <= a <= b <= t.len(), styled(t, s), cut_from(s, blen(t.take(a)) as int, blen(t.take(b)) as int, cut),
    ensures canonical(cut), fits_bytes(s, blen(t.take(a)) as int, blen(t.take(b)) as int, 0, cut), forall|i: int| 0 <= i < cut.len() ==> (#[trigger] cut[i]).byte_end <= blen(t),
{
    let (lo, hi) = (blen(t.take(a)) as int, blen(t.take(b)) as int); blen_mono(t, a, b);
    assert forall|x: int| #[trigger] fmt_at(cut, x) == byte_written(s, lo, hi, 0, x) by { if lo < hi { assert(fmt_at(cut, x) == removed(s, lo, hi, x)); } }
    assert forall|i: int| 0 <= i < cut.len() implies (#[trigger] cut[i]).byte_end <= blen(t) by {
        let x = cut[i].byte_end - 1; fmt_at_hit(cut, i, x); assert(fmt_at(cut, x) is Some); assert(fmt_at(cut, x) == byte_written(s, lo, hi, 0, x));
        if x < lo { assert(fmt_at(s, x) is Some); } else { let y = x + (hi - lo); assert(fmt_at(s, y) is Some); }
    }
}
pub proof fn filled(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, ins: Seq<char>, cut: Seq<FormatRun>, s1: Seq<FormatRun>)
    requires 0 <= a <= b <= t.len(), styled(t, s), canonical(cut), fits_bytes(s, blen(t.take(a)) as int, blen(t.take(b)) as int, 0, cut), canonical(s1), forall|x: int| #[trigger] fmt_at(s1, x) == inserted(cut, blen(t.take(a)) as int, blen(ins) as int, x),
    ensures written(t, s, a, b, ins, splice(t, a, b, ins), s1),
{
    let (lo, hi, m) = (blen(t.take(a)) as int, blen(t.take(b)) as int, blen(ins) as int); blen_mono(t, a, b);
    assert forall|x: int| #[trigger] fmt_at(s1, x) == byte_written(s, lo, hi, m, x) by {
        assert(fmt_at(s1, x) == inserted(cut, lo, m, x));
        let y = if x < lo { x } else if x < lo + m { lo - 1 } else { x - m };
        assert(fmt_at(cut, y) == byte_written(s, lo, hi, 0, y));
    }
    bytes_to_chars(t, s, a, b, ins, s1);
}
pub proof fn emptied(t: Seq<char>, s: Seq<FormatRun>, a: int, b: int, cut: Seq<FormatRun>)
    requires 0 <= a <= b <= t.len(), styled(t, s), canonical(cut), fits_bytes(s, blen(t.take(a)) as int, blen(t.take(b)) as int, 0, cut),
    ensures written(t, s, a, b, Seq::empty(), splice(t, a, b, Seq::empty()), cut),
{ take_all(Seq::empty()); bytes_to_chars(t, s, a, b, Seq::empty(), cut); }
pub proof fn still_there(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures at(splice(t, a, b, Seq::empty()), blen(t.take(a)) as int, a), char_of(splice(t, a, b, Seq::empty()), blen(t.take(a)) as int) == a, on_char(splice(t, a, b, Seq::empty()), blen(t.take(a)) as int),
        char_of(t, blen(t.take(a)) as int) == a, char_of(t, blen(t.take(b)) as int) == b, on_char(t, blen(t.take(a)) as int), on_char(t, blen(t.take(b)) as int), at(t, blen(t) as int, t.len() as int), at(t, 0, 0), char_of(t, 0) == 0, char_of(t, blen(t) as int) == t.len(),
{
    let u = splice(t, a, b, Seq::empty()); splice_bytes(t, a, b, Seq::empty(), a); at_one(u, blen(t.take(a)) as int, a);
    assert(at(t, blen(t.take(a)) as int, a)); assert(at(t, blen(t.take(b)) as int, b)); at_one(t, blen(t.take(a)) as int, a); at_one(t, blen(t.take(b)) as int, b);
    take_all(t); at_one(t, 0, 0); at_one(t, blen(t) as int, t.len() as int);
}
pub open spec fn ready(st: Store, id: u64) -> bool { st.texts@.contains_key(id) && styled(st.texts@[id], runs_of(st.format_runs@, id)) && blen(st.texts@[id]) <= i32::MAX }
#[verifier::external_body] // TRUSTED: String::with_capacity is empty
pub fn std_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
//@ rwtype &mut Box<dyn ReplaceTextUnitOfWorkTrait> => &mut Store
//@ rwtype &mut Box<dyn InsertTextUnitOfWorkTrait> => &mut Store
//@ rwtype &mut Box<dyn DeleteTextUnitOfWorkTrait> => &mut Store
//@ rwstmt let store = uow.store(); =>
//@ rwstmt let images_before = $x; => let images_before: Vec<ImageAnchor> = Vec::new();
//@ rwstmt let mut runs_map = store.format_runs.write().unwrap(); =>
//@ rwstmt let _images_removed = $x; =>
//@ rwstmt let images_removed = $x; => let images_removed: i64 = 0;
//@ rwstmt { let mut images_map = $x; $b } =>
//@ rwstmt updated_block.updated_at = $x; =>
//@ rwstmt updated.updated_at = $x; =>
//@ rwstmt debug_assert_well_formed($a, $b); =>
//@ rw runs_map.entry($i).or_default() => uow.format_runs.of($i)
//@ rw block_content_via_store(block, &store) => uow.content(block)
//@ rw block_content_via_store(&block, &store) => uow.content(&block)
//@ rw rope_delete_in_block(&store, $i, $a, $b) => uow.delete_at($i, $a, $b)
//@ rw common::database::rope_helpers::rope_delete_in_block(&store, $i, $a, $b) => uow.delete_at($i, $a, $b)
//@ rw rope_insert_in_block(&store, $i, $a, $b) => uow.insert_at($i, $a, $b)
//@ rw String::with_capacity($x) => std_with_capacity($x)
//@ rw block_text.len() => std_len(&block_text)
//@ rw replacement.len() => std_len(replacement)
//@ rw replacement.chars().count() => std_char_count(replacement)
//@ rw block_text[$a..$b].chars().count() => std_char_count(std_slice(&block_text, $a, $b))
//@ rw &block_text[..$b] => std_slice(&block_text, 0, $b)
//@ rw &block_text[$a..] => std_slice(&block_text, $a, std_len(&block_text))
//@ rw new_plain.push_str($x) => std_push_str(&mut new_plain, $x)
