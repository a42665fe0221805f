use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ use rope_ops.vrs
// ---- loading a plain text
/// s with every leftmost "\r\n" made one '\n'
pub open spec fn no_pairs(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { seq!['\n'] + no_pairs(s.skip(2)) } else { seq![s[0]] + no_pairs(s.skip(1)) } }
pub open spec fn mapped(s: Seq<char>, a: char, b: char) -> Seq<char> { Seq::new(s.len(), |i: int| if s[i] == a { b } else { s[i] }) }
/// every line ending, of whichever kind, as one '\n'
pub open spec fn unix(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s[0] == '\r' { seq!['\n'] + unix(s.skip(if s.len() >= 2 && s[1] == '\n' { 2 } else { 1 })) } else { seq![s[0]] + unix(s.skip(1)) } }
pub proof fn both_steps(s: Seq<char>)
    ensures mapped(no_pairs(s), '\r', '\n') == unix(s), !unix(s).contains('\r'), unix(s).len() <= s.len(), blen(unix(s)) <= blen(s),
    decreases s.len(),
{
    if s.len() == 0 { assert(mapped(no_pairs(s), '\r', '\n') =~= unix(s)); }
    else {
        let k: int = if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { 2 } else { 1 };
        both_steps(s.skip(k));
        let (h, t) = (if k == 2 { '\n' } else { s[0] }, no_pairs(s.skip(k)));
        assert(no_pairs(s) == seq![h] + t);
        assert(mapped(seq![h] + t, '\r', '\n') =~= seq![if h == '\r' { '\n' } else { h }] + mapped(t, '\r', '\n'));
        let g = if h == '\r' { '\n' } else { h };
        assert(unix(s) == seq![g] + unix(s.skip(k)));
        assert(!(seq![g] + unix(s.skip(k))).contains('\r')) by {
            assert forall|i: int| 0 <= i < unix(s).len() implies unix(s)[i] != '\r' by { if i > 0 { assert(unix(s)[i] == unix(s.skip(k))[i - 1]); assert(unix(s.skip(k)).contains(unix(s.skip(k))[i - 1])); } }
        }
        blen_add(seq![g], unix(s.skip(k))); blen_one(g);
        assert(s =~= s.take(k) + s.skip(k)); blen_add(s.take(k), s.skip(k)); blen_ge(s.take(k));
        if k == 1 { assert(s.take(1) =~= seq![s[0]]); blen_one(s[0]); }
    }
}
/// a text without '\r' is loaded as it is
pub proof fn unix_same(s: Seq<char>)
    requires !s.contains('\r'),
    ensures unix(s) == s,
    decreases s.len(),
{ if s.len() > 0 { assert(s.contains(s[0])); assert forall|c: char| s.skip(1).contains(c) implies s.contains(c) by { let i = s.skip(1).index_of(c); assert(s[i + 1] == c); } unix_same(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(unix(s) =~= s); } }
pub open spec fn as_paras(l: Seq<&str>) -> Paras { Seq::new(l.len(), |i: int| (OffsetMarker::Block(0), l[i]@)) }
#[verifier::external_body] // TRUSTED: str::replace of a two-character pattern replaces its leftmost occurrences
pub fn std_no_pairs(s: &str) -> (r: String) ensures r@ == no_pairs(s@) { s.replace("\r\n", "\n") }
#[verifier::external_body] // TRUSTED: str::replace of a character by a one-character string
pub fn std_map_char(s: String, a: char, b: char) -> (r: String) ensures r@ == mapped(s@, a, b) { s.replace(a, &b.to_string()) }
#[verifier::external_body] // TRUSTED: split at '\n': the parts hold no '\n' and joined by it they are the text
pub fn std_split_lines<'a>(s: &'a String) -> (r: Vec<&'a str>)
    ensures r@.len() > 0, join(as_paras(r@)) == s@, forall|i: int| 0 <= i < r@.len() ==> !(#[trigger] r@[i])@.contains('\n'),
{ s.split('\n').collect() }
#[verifier::external_body] // TRUSTED: str::chars().count()
pub fn std_char_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
/// markers do not matter for the text
pub proof fn same_join(a: Paras, b: Paras, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).1 == b[i].1,
    ensures pre(a, k) == pre(b, k), k == a.len() ==> join(a) == join(b),
    decreases k,
{ if k > 0 { same_join(a, b, k - 1); } }
/// the transaction: new paragraph records get ids no paragraph or marker has had
#[verifier::external_body] // TRUSTED: the block table hands out fresh ids and keeps the records it is given
pub struct Records { r: u8 }
impl Records {
    pub uninterp spec fn made(&self) -> Seq<(u64, i64)>;
    #[verifier::external_body]
    pub fn create_block(&mut self, b: Block) -> (r: Result<Block, Error>)
        ensures r is Ok ==> r->Ok_0.document_position == b.document_position && final(self).made() == old(self).made().push((r->Ok_0.id, b.document_position)) && r->Ok_0.id <= i64::MAX,
            r is Ok ==> forall|i: int| 0 <= i < old(self).made().len() ==> (#[trigger] old(self).made()[i]).0 != r->Ok_0.id,
    { unimplemented!() }
}
pub struct Error {}
impl Block { pub fn default() -> (r: Block) { Block { id: 0, document_position: 0 } } }
/// the text given to the importer
pub struct Given { pub plain_text: String }
pub struct Loaded { pub blocks: i64, pub chars: i64, pub ids: Vec<i64> }
pub open spec fn total(l: Seq<&str>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { total(l, k - 1) + l[k - 1]@.len() } }
pub open spec fn lens_of(d: Paras) -> int
    decreases d.len()
{ if d.len() == 0 { 0 } else { lens_of(d.drop_last()) + d.last().1.len() } }
pub proof fn total_is(l: Seq<&str>, k: int)
    requires 0 <= k <= l.len(),
    ensures total(l, k) == pre(as_paras(l), k).len() - k, total(l, k) >= 0,
    decreases k,
{ if k > 0 { total_is(l, k - 1); } }
pub open spec fn made_para(r: Seq<(u64, i64)>, l: Seq<&str>, i: int) -> (OffsetMarker, Seq<char>) { (OffsetMarker::Block(r[i].0), l[i]@) }
/// what has been written after k lines
pub open spec fn written(r: Seq<(u64, i64)>, l: Seq<&str>, k: int) -> Paras { Seq::new(k as nat, |i: int| made_para(r, l, i)) }
pub open spec fn recorded(r: Seq<(u64, i64)>, l: Seq<&str>, k: int) -> bool { r.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] r[i]).1 == start(as_paras(l), i) }
/// what has been written so far is a part of the text
pub proof fn step_room(s: RopeStore, r: Seq<(u64, i64)>, l: Seq<&str>, k: int)
    requires tidy(s), doc(s) == written(r, l, k), recorded(r, l, k), 0 <= k < l.len(), fits(blen(join(as_paras(l))) as int),
    ensures
        s.rope@ == join(doc(s)), doc(s).len() == k, r.len() == k,
        blen(s.rope@) + (if k > 0 { 1int } else { 0 }) + blen(l[k]@) <= blen(join(as_paras(l))),
        total(l, k) == start(as_paras(l), k) - k, 0 <= total(l, k), 0 <= start(as_paras(l), k), total(l, k) + l[k]@.len() == total(l, k + 1), start(as_paras(l), k) + l[k]@.len() <= join(as_paras(l)).len() <= blen(join(as_paras(l))),
        k + 1 < l.len() ==> start(as_paras(l), k + 1) == start(as_paras(l), k) + l[k]@.len() + 1,
        k + 1 == l.len() ==> join(as_paras(l)).len() == start(as_paras(l), k) + l[k]@.len(),
        forall|i: int| 0 <= i < k ==> (#[trigger] doc(s)[i]).0 == OffsetMarker::Block(r[i].0),
{
    let (d, a) = (doc(s), as_paras(l));
    has_doc(s); total_is(l, k); total_is(l, k + 1); blen_ge(join(a)); pre_in(a, k); starts_up(a, k, k);
    same_join(d, a.take(k), k);
    assert(a =~= a.take(k) + a.skip(k)); pre_cat(a.take(k), a.skip(k), k);
    if k > 0 {
        around(a, 0, k); assert(a.subrange(0, k) =~= a.take(k)); assert(pre(a, k) == join(a.take(k)).push('\n')) by { assert(pre(a, 0) + join(a.take(k)) =~= join(a.take(k))); }
        blen_push(join(a.take(k)), '\n');
    } else { assert(d =~= seq![]); assert(blen(seq![]) == 0); }
    if k + 1 == l.len() { assert(join(a) == pre(a, k) + a[k].1); }
}
pub proof fn step_done(r: Seq<(u64, i64)>, r2: Seq<(u64, i64)>, l: Seq<&str>, k: int, id: u64, p: i64)
    requires 0 <= k < l.len(), recorded(r, l, k), r2 == r.push((id, p)), p == start(as_paras(l), k),
    ensures written(r2, l, k + 1) == written(r, l, k).push((OffsetMarker::Block(id), l[k]@)), recorded(r2, l, k + 1),
{ assert(written(r2, l, k + 1) =~= written(r, l, k).push((OffsetMarker::Block(id), l[k]@))); }
/// all of it
pub proof fn loaded(r: Seq<(u64, i64)>, l: Seq<&str>)
    requires recorded(r, l, l.len() as int), l.len() > 0,
    ensures ({
        let d = written(r, l, l.len() as int);
        &&& d.len() == l.len() && join(d) == join(as_paras(l)) && r.len() == l.len() && total(l, l.len() as int) == join(d).len() - (l.len() - 1)
        &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).0 == OffsetMarker::Block(r[i].0) && d[i].1 == l[i]@ && r[i].1 == start(d, i)
    }),
{
    let n = l.len() as int; let (d, a) = (written(r, l, n), as_paras(l));
    same_join(d, a, n); total_is(l, n); total_is(l, n - 1);
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 == OffsetMarker::Block(r[i].0) && d[i].1 == l[i]@ && r[i].1 == start(d, i) by { same_join(d, a, i); }
}
//@ fn crates/document_io/src/use_cases/import_plain_text_uc.rs ImportPlainTextUseCase::execute
//@ from rope_reset(&uow.store());
//@ to for (i, line) in $e { $b }
//@ rename load_text
//@ sig (store: &mut RopeStore, dto: &Given, uow: &mut Records) -> Result<Loaded, Error>
//@ yields Ok(Loaded { blocks: num_blocks, chars: total_chars, ids: block_ids })
requires fits(blen(dto.plain_text@) as int), old(uow).made().len() == 0,
ensures
    r is Ok ==> tidy(*final(store)) && ({
        let d = doc(*final(store)); let u = unix(dto.plain_text@); let out = r->Ok_0;
        // the document's text is the given text with its line endings normalised
        &&& join(d) == u && final(store).rope@ == u
        // one paragraph per line
        &&& forall|i: int| 0 <= i < d.len() ==> !(#[trigger] d[i]).1.contains('\n')
        // the paragraphs are the records made, in order, each where its text starts
        &&& out.ids@.len() == d.len() && final(uow).made().len() == d.len() && d.len() > 0
        &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).0 == OffsetMarker::Block(final(uow).made()[i].0) && out.ids@[i] == final(uow).made()[i].0 && final(uow).made()[i].1 == start(d, i)
        // and the document's counts
        &&& out.blocks == d.len() && out.chars == u.len() - (d.len() - 1)
    }),
//@ ret r
//@ rw &uow.store() => store
//@ rw dto.plain_text.replace("\r\n", "\n") => std_no_pairs(&dto.plain_text)
//@ rw $x.replace('\r', "\n") => std_map_char($x, '\r', '\n')
//@ rw normalized.split('\n').collect() => std_split_lines(&normalized)
//@ rw line.chars().count() => std_char_count(line)
//@ rw uow.create_block(&block, created_frame.id, -1) => uow.create_block(block)
//@ top
//raw hide(shows); hide(join); hide(tidy); hide(doc); hide(start); hide(n_anchors); hide(indexed); hide(stop); hide(is_open); hide(open_doc); hide(shows_open); hide(laid); hide(blen); hide(pre); hide(wf); hide(written); hide(recorded); hide(as_paras); hide(total); hide(unix);
proof { both_steps(dto.plain_text@); empty_written(uow.made()); }
//@ ahead let mut total_chars : i64 = 0;
few_lines(lines@, normalized@);
empty_recorded(uow.made(), lines@);
//@ loop 0
invariant
    normalized@ == unix(dto.plain_text@), join(as_paras(lines@)) == normalized@, fits(blen(normalized@) as int), lines@.len() > 0, lines@.len() <= blen(normalized@) + 1, num_blocks == lines@.len(),
    forall|q: int| 0 <= q < lines@.len() ==> !(#[trigger] lines@[q])@.contains('\n'),
    tidy(*store), doc(*store) == written(uow.made(), lines@, i as int), recorded(uow.made(), lines@, i as int),
    total_chars == total(lines@, i as int), document_position == if i < lines@.len() { start(as_paras(lines@), i as int) } else { join(as_paras(lines@)).len() as int },
    block_ids@.len() == i, forall|q: int| 0 <= q < i ==> #[trigger] block_ids@[q] == uow.made()[q].0,
//@ loop 0 top
//raw let ghost m0 = uow.made(); let ghost k = i as int; let ghost doc_before = doc(*store);
proof { step_room(*store, m0, lines@, k); }
//@ before rope_insert_block_boundary 0
assert(doc(*store).len() > 0);
//@ before rope_append_block 0
fresh(doc_before, m0, created_block.id, k);
if k == 0 { lens(*store); not_open(*store); }
//@ before push 0
//raw let ghost m1 = uow.made();
proof { step_done(m0, m1, lines@, k, created_block.id, block.document_position); }
//@ bottom
loaded(uow.made(), lines@); lens(*store);
assert(document_position == normalized@.len());
//@ end
pub proof fn fresh(d: Paras, r: Seq<(u64, i64)>, id: u64, k: int)
    requires d.len() == k, r.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] d[i]).0 == OffsetMarker::Block(r[i].0), forall|i: int| 0 <= i < k ==> (#[trigger] r[i]).0 != id,
    ensures !names(d, OffsetMarker::Block(id)),
{ if names(d, OffsetMarker::Block(id)) { let i = para(d, OffsetMarker::Block(id)); assert(r[i].0 != id); } }
pub proof fn empty_written(r: Seq<(u64, i64)>) ensures forall|l: Seq<&str>| #[trigger] written(r, l, 0) == Seq::<(OffsetMarker, Seq<char>)>::empty() { assert forall|l: Seq<&str>| #[trigger] written(r, l, 0) == Seq::<(OffsetMarker, Seq<char>)>::empty() by { assert(written(r, l, 0) =~= Seq::<(OffsetMarker, Seq<char>)>::empty()); } }
pub proof fn empty_recorded(r: Seq<(u64, i64)>, l: Seq<&str>) requires r.len() == 0, ensures recorded(r, l, 0), total(l, 0) == 0, l.len() > 0 ==> start(as_paras(l), 0) == 0 { }
pub proof fn few_lines(l: Seq<&str>, t: Seq<char>) requires join(as_paras(l)) == t, ensures l.len() <= blen(t) + 1 { few(as_paras(l), l.len() as int); blen_ge(t); }

// ---- the calls a load consists of. TRUSTED: what each of them does is proved elsewhere (load_text above, cursors.vrs, events.vrs, undo_redo.vrs) or assumed
#[verifier::external_body]
pub struct Session { r: u8 }
pub enum DocumentEvent { DocumentReset, UndoRedoChanged { can_undo: bool, can_redo: bool }, Other }
impl Session {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn cached(&self) -> bool;
    pub uninterp spec fn history(&self) -> bool;
    pub uninterp spec fn cursors(&self) -> Seq<(int, int)>;
    /// how often a reset was reported, and what was last said about undo and redo
    pub uninterp spec fn resets(&self) -> nat;
    pub uninterp spec fn undo_told(&self) -> Option<(bool, bool)>;
    pub open spec fn same_but(&self, o: &Self, text: bool, cached: bool, history: bool, cursors: bool, told: bool) -> bool {
        (text || self.text() == o.text()) && (cached || self.cached() == o.cached()) && (history || self.history() == o.history()) && (cursors || self.cursors() == o.cursors()) && (told || (self.resets() == o.resets() && self.undo_told() == o.undo_told()))
    }
    #[verifier::external_body]
    pub fn import_plain_text(&mut self, dto: &Given) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).text() == unix(dto.plain_text@) && final(self).same_but(old(self), true, false, false, false, false), r is Err ==> final(self).same_but(old(self), false, false, false, false, false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_stack(&mut self) ensures !final(self).history(), final(self).same_but(old(self), false, false, true, false, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn adjust_cursors(&mut self, edit: usize, removed: usize, added: usize)
        requires edit + removed <= usize::MAX, edit + added <= usize::MAX,
        ensures
            final(self).same_but(old(self), false, false, false, true, false), final(self).cursors().len() <= old(self).cursors().len(),
            edit == 0 && removed == usize::MAX && added == 0 ==> forall|i: int| 0 <= i < final(self).cursors().len() ==> #[trigger] final(self).cursors()[i] == (0int, 0int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn invalidate_text_cache(&mut self) ensures !final(self).cached(), final(self).same_but(old(self), false, true, false, false, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn rehighlight_all(&mut self) ensures final(self).same_but(old(self), false, false, false, false, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn queue_event(&mut self, e: DocumentEvent) ensures final(self).resets() == old(self).resets() + (if e is DocumentReset { 1nat } else { 0 }), final(self).undo_told() == (match e { DocumentEvent::UndoRedoChanged { can_undo, can_redo } => Some((can_undo, can_redo)), _ => old(self).undo_told() }), final(self).same_but(old(self), false, false, false, false, true) { unimplemented!() }
    #[verifier::external_body]
    pub fn check_block_count_changed(&mut self)
        ensures final(self).same_but(old(self), false, false, false, false, false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reset_cached_child_order(&mut self) ensures final(self).same_but(old(self), false, false, false, false, false) { unimplemented!() }
}
/// what a load leaves behind
pub open spec fn fresh_start(o: &Session, n: &Session, t: Seq<char>) -> bool {
    &&& n.text() == unix(t) && !n.cached() && !n.history()
    &&& forall|i: int| 0 <= i < n.cursors().len() ==> #[trigger] n.cursors()[i] == (0int, 0int)
    &&& n.resets() == o.resets() + 1 && n.undo_told() == Some((false, false))
}
//@ rw document_io_commands::import_plain_text(&inner.ctx, &dto) => inner.import_plain_text(&dto)
//@ rw undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id) => inner.clear_stack()
//@ fn crates/public_api/src/document.rs TextDocument::set_plain_text
//@ from document_io_commands::import_plain_text(&inner.ctx, &dto)?;
//@ to inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo: false, can_redo: false });
//@ rename after_set
//@ sig (inner: &mut Session, dto: Given) -> Result<(), Error>
//@ yields Ok(())
ensures r is Ok ==> fresh_start(old(inner), final(inner), dto.plain_text@), r is Err ==> final(inner).same_but(old(inner), false, false, false, false, false),
//@ ret r
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::clear
//@ from document_io_commands::import_plain_text(&inner.ctx, &dto)?;
//@ to inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo: false, can_redo: false });
//@ rename after_clear
//@ sig (inner: &mut Session, dto: Given) -> Result<(), Error>
//@ yields Ok(())
ensures r is Ok ==> fresh_start(old(inner), final(inner), dto.plain_text@), r is Err ==> final(inner).same_but(old(inner), false, false, false, false, false),
//@ ret r
//@ end
}
fn main() {}
