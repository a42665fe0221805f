use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
// ---- types; callbacks are opaque (dyn Fn), a subscription is "alive" or dropped
pub enum FormatChangeKind { Block, Character, List }
#[derive(Clone, Copy)]
pub struct Callback { pub id: u64 }
pub struct CallbackEntry { pub callback: Callback, pub live: bool }
//@ rwtype crate::flow::FormatChangeKind => FormatChangeKind
//@ rwtype crate::DocumentEvent => DocumentEvent
//@ rwtype crate::events::DocumentEvent => DocumentEvent
//@ rwtype Arc<dyn Fn(crate::events::DocumentEvent) + Send + Sync> => Callback
//@ rwtype Arc<dyn Fn(DocumentEvent) + Send + Sync> => Callback
//@ rwtype QueuedEvents => Vec<(DocumentEvent, Vec<Callback>)>
//@ item crates/public_api/src/events.rs DocumentEvent
impl Clone for DocumentEvent {
    #[verifier::external_body] // TRUSTED: derive(Clone) on DocumentEvent returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ item crates/public_api/src/inner.rs TextDocumentInner only modified, pending_events, callbacks, callback_cursor, poll_cursor, last_block_count, last_child_order

// ---- std pieces the verifier has no specification for
#[verifier::external_body] // TRUSTED: `v[k..].to_vec()` copies the elements from k on
pub fn std_tail(v: &Vec<DocumentEvent>, k: usize) -> (r: Vec<DocumentEvent>)
    requires k <= v@.len(), ensures r@ == v@.skip(k as int),
{ v[k..].to_vec() }
#[verifier::external_body] // TRUSTED: `v.drain(..k)` (dropped at once) removes the first k elements
pub fn std_drop_front(v: &mut Vec<DocumentEvent>, k: usize)
    requires k <= old(v)@.len(), ensures final(v)@ == old(v)@.skip(k as int),
{ v.drain(..k); }
pub open spec fn live(c: Seq<CallbackEntry>) -> Seq<Callback> { c.filter(|e: CallbackEntry| e.live).map_values(|e: CallbackEntry| e.callback) }
#[verifier::external_body] // TRUSTED: retain(strong_count > 0) keeps at least the live subscriptions, in order (a subscription is live while its handle's flag is reachable and set)
pub fn std_retain_alive(v: &mut Vec<CallbackEntry>)
    ensures live(final(v)@) == live(old(v)@),
{ unimplemented!() }
#[verifier::external_body] // TRUSTED: the filter_map over upgrade/load/Arc::clone lists the callbacks of the live subscriptions, in order
pub fn std_live_callbacks(v: &Vec<CallbackEntry>) -> (r: Vec<Callback>)
    ensures r@ == live(v@),
{ unimplemented!() }
#[verifier::external_body] // TRUSTED: into_iter().map(|e| (e, live.clone())).collect() pairs every event, in order, with a copy of the list
pub fn std_pair_all(v: Vec<DocumentEvent>, c: &Vec<Callback>) -> (r: Vec<(DocumentEvent, Vec<Callback>)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == v@[i] && r@[i].1@ == c@,
{ unimplemented!() }
pub open spec fn prefix_len(a: Seq<i64>, b: Seq<i64>) -> nat
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + prefix_len(a.skip(1), b.skip(1)) } else { 0 } }
#[verifier::external_body] // TRUSTED: zip + take_while(equal) + count is the length of the common prefix
pub fn std_common_prefix(a: &Vec<i64>, b: &Vec<i64>) -> (r: usize)
    ensures
        r <= a@.len(), r <= b@.len(), a@.take(r as int) == b@.take(r as int),
        r < a@.len() && r < b@.len() ==> a@[r as int] != b@[r as int],
{ a.iter().zip(b.iter()).take_while(|(a, b)| a == b).count() }
#[verifier::external_body] // TRUSTED: the same with rev() from position p on is the length of the common suffix of the rests
pub fn std_common_suffix_from(a: &Vec<i64>, b: &Vec<i64>, p: usize) -> (r: usize)
    requires p <= a@.len(), p <= b@.len(),
    ensures
        r <= a@.len() - p, r <= b@.len() - p, a@.skip(a@.len() - r) == b@.skip(b@.len() - r),
        r < a@.len() - p && r < b@.len() - p ==> a@[a@.len() - r - 1] != b@[b@.len() - r - 1],
{ a[p..].iter().rev().zip(b[p..].iter().rev()).take_while(|(a, b)| a == b).count() }
#[verifier::external_body] // TRUSTED: Vec<i64> equality is element-wise
pub fn std_vec_eq(a: &Vec<i64>, b: &Vec<i64>) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

// ---- specification: two queues over one log
pub open spec fn inv(d: TextDocumentInner) -> bool { d.poll_cursor <= d.pending_events@.len() && d.callback_cursor <= d.pending_events@.len() }
/// what polling has not returned yet
pub open spec fn unpolled(d: TextDocumentInner) -> Seq<DocumentEvent> { d.pending_events@.skip(d.poll_cursor as int) }
/// what the callbacks have not been given yet
pub open spec fn undelivered(d: TextDocumentInner) -> Seq<DocumentEvent> { d.pending_events@.skip(d.callback_cursor as int) }
pub open spec fn queued(o: TextDocumentInner, n: TextDocumentInner, e: Seq<DocumentEvent>) -> bool {
    inv(n) && unpolled(n) == unpolled(o) + e && undelivered(n) == undelivered(o) + e && live(n.callbacks@) == live(o.callbacks@)
}
/// a listener's element list after an event
pub open spec fn follow(s: Seq<i64>, e: DocumentEvent, new: Seq<i64>) -> Seq<i64> {
    match e {
        DocumentEvent::FlowElementsRemoved { flow_index, count } => s.take(flow_index as int) + s.skip(flow_index + count),
        DocumentEvent::FlowElementsInserted { flow_index, count } => s.take(flow_index as int) + new.subrange(flow_index as int, flow_index + count) + s.skip(flow_index as int),
        _ => s,
    }
}
pub open spec fn follow_all(s: Seq<i64>, e: Seq<DocumentEvent>, new: Seq<i64>) -> Seq<i64>
    decreases e.len()
{ if e.len() == 0 { s } else { follow(follow_all(s, e.drop_last(), new), e.last(), new) } }
pub uninterp spec fn db_child_order() -> Seq<i64>;
pub uninterp spec fn db_block_count() -> Option<int>;
pub struct DocumentDto { pub block_count: i64 }

impl TextDocumentInner {
//@ fn crates/public_api/src/inner.rs TextDocumentInner::queue_event
requires inv(*old(self)),
ensures
    queued(*old(self), *final(self), seq![event]),
    final(self).last_child_order == old(self).last_child_order, final(self).last_block_count == old(self).last_block_count, final(self).modified == old(self).modified,
//@ bottom
assert(unpolled(*self) =~= unpolled(*old(self)) + seq![event]);
assert(undelivered(*self) =~= undelivered(*old(self)) + seq![event]);
//@ end
//@ fn crates/public_api/src/inner.rs TextDocumentInner::trim_delivered_events
requires inv(*old(self)),
ensures
    inv(*final(self)), unpolled(*final(self)) == unpolled(*old(self)), undelivered(*final(self)) == undelivered(*old(self)),
    final(self).callbacks == old(self).callbacks,
//@ rwstmt self.pending_events.drain(..$k); => std_drop_front(&mut self.pending_events, $k);
//@ rw self.callback_cursor.min(self.poll_cursor) => (if self.callback_cursor <= self.poll_cursor { self.callback_cursor } else { self.poll_cursor })
//@ bottom
assert(unpolled(*self) =~= unpolled(*old(self)));
assert(undelivered(*self) =~= undelivered(*old(self)));
//@ end
//@ fn crates/public_api/src/inner.rs TextDocumentInner::drain_poll_events
requires inv(*old(self)),
ensures
    r@ == unpolled(*old(self)), inv(*final(self)), unpolled(*final(self)).len() == 0, undelivered(*final(self)) == undelivered(*old(self)),
    final(self).callbacks == old(self).callbacks,
//@ rw self.pending_events[$k ..].to_vec() => std_tail(&self.pending_events, $k)
//@ end
//@ fn crates/public_api/src/inner.rs TextDocumentInner::take_queued_events
requires inv(*old(self)),
ensures
    // every live callback gets exactly the events it has not seen, in order
    live(old(self).callbacks@).len() > 0 ==> r@.len() == undelivered(*old(self)).len(),
    forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == undelivered(*old(self))[i] && r@[i].1@ == live(old(self).callbacks@),
    // and polling is not affected
    inv(*final(self)), undelivered(*final(self)).len() == 0, unpolled(*final(self)) == unpolled(*old(self)), live(final(self).callbacks@) == live(old(self).callbacks@),
//@ rw self.pending_events[$k ..].to_vec() => std_tail(&self.pending_events, $k)
//@ rwstmt self.callbacks.retain(|entry| entry.alive.strong_count() > 0); => std_retain_alive(&mut self.callbacks);
//@ rw self.callbacks.iter().filter_map(|entry| { let alive = entry.alive.upgrade()?; if alive.load(std::sync::atomic::Ordering::Relaxed) { Some(Arc::clone(&entry.callback)) } else { None } }).collect() => std_live_callbacks(&self.callbacks)
//@ rw new_events.into_iter().map(|e| (e, live_callbacks.clone())).collect() => std_pair_all(new_events, &live_callbacks)
//@ end

    #[verifier::external_body] // TRUSTED: the database read returns the stored document record
    pub fn db_document(&self) -> (r: Result<Option<DocumentDto>, ()>)
        ensures (r is Ok && r->Ok_0 is Some) == (db_block_count() is Some), r is Ok && r->Ok_0 is Some ==> db_block_count() == Some(r->Ok_0->Some_0.block_count as int), r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0.block_count >= 0,
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: main_frame_child_order reads the stored element order
    pub fn main_frame_child_order(&self) -> (r: Vec<i64>)
        ensures r@ == db_child_order(),
    { unimplemented!() }
//@ fn crates/public_api/src/inner.rs TextDocumentInner::check_block_count_changed
requires inv(*old(self)),
ensures
    // the listener's count is the true count afterwards, and it is told exactly when it changed
    db_block_count() is Some ==> final(self).last_block_count == db_block_count()->Some_0,
    queued(*old(self), *final(self), if db_block_count() is Some && db_block_count()->Some_0 != old(self).last_block_count { seq![DocumentEvent::BlockCountChanged(final(self).last_block_count)] } else { seq![] }),
    final(self).last_child_order == old(self).last_child_order,
//@ rw frontend::commands::document_commands::get_document(&self.ctx, &self.document_id) => self.db_document()
//@ rw crate::DocumentEvent::BlockCountChanged($x) => DocumentEvent::BlockCountChanged($x)
//@ bottom
assert(unpolled(*old(self)) + Seq::<DocumentEvent>::empty() =~= unpolled(*old(self)));
assert(undelivered(*old(self)) + Seq::<DocumentEvent>::empty() =~= undelivered(*old(self)));
//@ end
//@ fn crates/public_api/src/inner.rs TextDocumentInner::check_flow_changed
requires inv(*old(self)), db_child_order().len() + old(self).last_child_order@.len() <= usize::MAX,
ensures
    final(self).last_child_order@ == db_child_order(),
    // a listener that applies the queued events in order has the new element list
    exists|ev: Seq<DocumentEvent>| #[trigger] queued(*old(self), *final(self), ev) && follow_all(old(self).last_child_order@, ev, db_child_order()) == db_child_order() && (old(self).last_child_order@ == db_child_order() ==> ev.len() == 0),
//@ rw current == self.last_child_order => std_vec_eq(&current, &self.last_child_order)
//@ rw old.iter().zip(new.iter()).take_while(|(a, b)| a == b).count() => std_common_prefix(old, new)
//@ rw old[$p ..].iter().rev().zip(new[$p ..].iter().rev()).take_while(|(a, b)| a == b).count() => std_common_suffix_from(old, new, $p)
//@ rwtype crate::DocumentEvent::FlowElementsRemoved => DocumentEvent::FlowElementsRemoved
//@ rwtype crate::DocumentEvent::FlowElementsInserted => DocumentEvent::FlowElementsInserted
//@ top
//raw let ghost me = *old(self);
//@ before main_frame_child_order 0
assert(queued(*self, *self, seq![])) by {
    assert(unpolled(*self) + Seq::<DocumentEvent>::empty() =~= unpolled(*self));
    assert(undelivered(*self) + Seq::<DocumentEvent>::empty() =~= undelivered(*self));
}
//@ bottom
let o = me.last_child_order@;
let n = current@;
let ev = flow_events(prefix_len as int, removed_count as int, inserted_count as int);
flow_lemma(o, n, prefix_len as int, removed_count as int, inserted_count as int);
assert(unpolled(*self) =~= unpolled(me) + ev);
assert(undelivered(*self) =~= undelivered(me) + ev);
assert(queued(me, *self, ev));
//@ end
}
pub open spec fn flow_events(p: int, r: int, i: int) -> Seq<DocumentEvent> {
    (if r > 0 { seq![DocumentEvent::FlowElementsRemoved { flow_index: p as usize, count: r as usize }] } else { seq![] })
    + (if i > 0 { seq![DocumentEvent::FlowElementsInserted { flow_index: p as usize, count: i as usize }] } else { seq![] })
}
pub proof fn flow_lemma(o: Seq<i64>, n: Seq<i64>, p: int, r: int, i: int)
    requires 0 <= p, 0 <= r, 0 <= i, p + r <= o.len(), p + i <= n.len(), o.len() <= usize::MAX, n.len() <= usize::MAX, o.len() - r == n.len() - i, o.take(p) == n.take(p), o.skip(p + r) == n.skip(p + i),
    ensures follow_all(o, flow_events(p, r, i), n) == n,
{
    let e1 = DocumentEvent::FlowElementsRemoved { flow_index: p as usize, count: r as usize };
    let e2 = DocumentEvent::FlowElementsInserted { flow_index: p as usize, count: i as usize };
    let ev = flow_events(p, r, i);
    let s1 = if r > 0 { follow(o, e1, n) } else { o };
    assert(s1 =~= o.take(p) + o.skip(p + r));
    assert(s1.take(p) =~= o.take(p));
    assert(s1.skip(p) =~= o.skip(p + r));
    assert(n =~= n.take(p) + n.subrange(p, p + i) + n.skip(p + i));
    reveal_with_fuel(follow_all, 3);
    if r > 0 && i > 0 {
        assert(ev =~= seq![e1, e2]);
        assert(ev.drop_last() =~= seq![e1]);
        assert(seq![e1].drop_last() =~= Seq::empty());
        assert(follow(s1, e2, n) =~= n);
    } else if r > 0 {
        assert(ev =~= seq![e1]);
        assert(seq![e1].drop_last() =~= Seq::empty());
        assert(s1 =~= n);
    } else if i > 0 {
        assert(ev =~= seq![e2]);
        assert(seq![e2].drop_last() =~= Seq::empty());
        assert(follow(o, e2, n) =~= n);
    } else { assert(ev =~= Seq::empty()); assert(o =~= n); }
}
// ---- the text edit undo and redo announce
#[verifier::external_body] // TRUSTED: zip + take_while(equal) + count is the length of the common prefix
pub fn std_common_front(a: &Vec<char>, b: &Vec<char>) -> (r: usize)
    ensures
        r <= a@.len(), r <= b@.len(), a@.take(r as int) == b@.take(r as int),
        r < a@.len() && r < b@.len() ==> a@[r as int] != b@[r as int],
{ a.iter().zip(b.iter()).take_while(|(a, b)| a == b).count() }
#[verifier::external_body] // TRUSTED: rev + zip + take(n) + take_while(equal) + count is the length of the common suffix, at most n
pub fn std_common_back(a: &Vec<char>, b: &Vec<char>, n: usize) -> (r: usize)
    requires n <= a@.len(), n <= b@.len(),
    ensures
        r <= n, a@.skip(a@.len() - r) == b@.skip(b@.len() - r),
        r < n ==> a@[a@.len() - r - 1] != b@[b@.len() - r - 1],
{ a.iter().rev().zip(b.iter().rev()).take(n).take_while(|(a, b)| a == b).count() }
#[verifier::external_body] // TRUSTED: chars().collect() lists the characters
pub fn std_char_list(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
/// what a listener has after replacing `removed` characters at `at` by the `added` new ones found there
pub open spec fn edited(old: Seq<char>, at: int, removed: int, added: int, new: Seq<char>) -> Seq<char> {
    old.take(at) + new.subrange(at, at + added) + old.skip(at + removed)
}
//@ fn crates/public_api/src/document.rs compute_text_edit
ensures
    r.0 + r.1 <= before@.len(), r.0 + r.2 <= after@.len(),
    // applying the announced edit to the old text gives the new text
    edited(before@, r.0 as int, r.1 as int, r.2 as int, after@) == after@,
    // the edit is tight: it begins and ends at a difference
    r.1 > 0 && r.2 > 0 ==> before@[r.0 as int] != after@[r.0 as int] && before@[r.0 + r.1 - 1] != after@[r.0 + r.2 - 1],
    before@ == after@ ==> r.1 == 0 && r.2 == 0,
//@ rw before.chars().collect() => std_char_list(before)
//@ rw after.chars().collect() => std_char_list(after)
//@ rw before_chars.iter().zip(after_chars.iter()).take_while(|(a, b)| a == b).count() => std_common_front(&before_chars, &after_chars)
//@ rw before_chars.iter().rev().zip(after_chars.iter().rev()).take($n).take_while(|(a, b)| a == b).count() => std_common_back(&before_chars, &after_chars, $n)
//@ rw before_remaining.min(after_remaining) => (if before_remaining <= after_remaining { before_remaining } else { after_remaining })
//@ bottom
let p = prefix_len as int;
let k = suffix_len as int;
let m = after@.len() as int;
let o = before@.len() as int;
assert(p + removed == o - k && p + added == m - k);
assert(after@ =~= after@.take(p) + after@.subrange(p, m - k) + after@.skip(m - k));
assert(edited(before@, p, removed as int, added as int, after@) =~= after@);
//@ end
}
fn main() {}
