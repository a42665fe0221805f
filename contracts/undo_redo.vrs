use vstd::prelude::*;
verus! {
// ---- ghost world: the document a command works on. A command knows the document before and after it.
#[verifier::external_body]
pub struct World { x: u8 }
pub struct Error {}
#[verifier::external_body]
pub struct Command { x: u8 }
pub uninterp spec fn before(c: Command) -> World;
pub uninterp spec fn after(c: Command) -> World;
/// two values of one command object: what it undoes and redoes is the same
pub open spec fn same_step(a: Command, b: Command) -> bool { before(a) == before(b) && after(a) == after(b) }
impl Command {
    #[verifier::external_body] // TRUSTED: undo of a leaf command takes the document from after(command) to before(command) (each use case; checked per use case by the bounded suites)
    pub fn undo(&mut self, w: &mut Ghost<World>) -> (r: Result<(), Error>)
        requires old(w)@ == after(*old(self)),
        ensures same_step(*final(self), *old(self)), r is Ok ==> final(w)@ == before(*old(self)),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: redo of a leaf command takes the document from before(command) to after(command)
    pub fn redo(&mut self, w: &mut Ghost<World>) -> (r: Result<(), Error>)
        requires old(w)@ == before(*old(self)),
        ensures same_step(*final(self), *old(self)), r is Ok ==> final(w)@ == after(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn can_merge(&self, o: &Command) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: a successful merge of the next command makes one command of both, a refused one changes nothing
    pub fn merge(&mut self, o: &Command) -> (r: bool)
        requires after(*old(self)) == before(*o),
        ensures !r ==> *final(self) == *old(self), r ==> before(*final(self)) == before(*old(self)) && after(*final(self)) == after(*o),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: Box::new(composite) as dyn UndoRedoCommand calls CompositeCommand::undo/redo, which are proved below
    pub fn from_composite(c: CompositeCommand) -> (r: Command)
        requires c.commands@.len() > 0, linked(c.commands@),
        ensures before(r) == before(c.commands@[0]), after(r) == after(c.commands@.last()),
    { unimplemented!() }
}
//@ rwtype Box<dyn UndoRedoCommand> => Command
//@ rwtype HashMap<u64, StackData> => StackMap
//@ rwtype Result<()> => Result<(), Error>
//@ rwtype Option<Arc<EventHub>> => Option<u8>
//@ rw Err(anyhow!($x)) => Err(Error {})
//@ rw $x.ok_or_else($f) => or_err($x)
//@ rwstmt if let Some(event_hub) = &self.event_hub { event_hub.send_event($x); } =>
//@ rw $c.undo() => $c.undo(w)
//@ rw $c.redo() => $c.redo(w)
//@ rw &*command => &command
//@ rw Box::new(composite) => Command::from_composite(composite)
//@ rw StackData::default() => StackData { undo_stack: Vec::new(), redo_stack: Vec::new() }
//@ rw $x.expect("Stack must exist") => $x.unwrap()
//@ rw $x.last_mut() => std_last_mut(&mut $x)
//@ item crates/common/src/undo_redo.rs CompositeCommand
//@ item crates/common/src/undo_redo.rs StackData
//@ item crates/common/src/undo_redo.rs UndoRedoManager
pub fn or_err<T>(o: Option<T>) -> (r: Result<T, Error>)
    ensures o is Some ==> r == Ok::<T, Error>(o->Some_0), o is None ==> r is Err,
{ match o { Some(x) => Ok(x), None => Err(Error {}) } }
#[verifier::external_body] // TRUSTED: slice::last_mut
pub fn std_last_mut(v: &mut Vec<Command>) -> (r: Option<&mut Command>)
    ensures
        r is None <==> old(v)@.len() == 0,
        r is None ==> final(v)@ == old(v)@,
        r is Some ==> *r->Some_0 == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(r->Some_0)),
{ v.last_mut() }
#[verifier::external_body] // TRUSTED: std HashMap<u64, StackData> is a finite map (get, get_mut, insert, remove)
pub struct StackMap { m: std::collections::HashMap<u64, u8> }
impl StackMap {
    pub uninterp spec fn view(&self) -> Map<u64, StackData>;
    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&StackData>)
        ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &u64) -> (r: Option<&mut StackData>)
        ensures
            r is Some <==> old(self)@.dom().contains(*k),
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->Some_0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: StackData) -> (r: Option<StackData>)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u64) -> (r: Option<StackData>)
        ensures r is Some <==> old(self)@.dom().contains(*k), final(self)@ == old(self)@.remove(*k),
    { unimplemented!() }
}

// ---- specification: history is one line of steps; each step starts where the one before ended
pub open spec fn linked(s: Seq<Command>) -> bool {
    forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> after(#[trigger] s[i]) == before(#[trigger] s[j])
}
pub open spec fn steps(s: Seq<Command>) -> Seq<(World, World)> { s.map_values(|c: Command| (before(c), after(c))) }
/// the line of all steps, done ones first
pub open spec fn line(st: StackData) -> Seq<(World, World)> { steps(st.undo_stack@) + steps(st.redo_stack@).reverse() }
/// the document is where the line says: behind the steps done, in front of the steps undone
pub open spec fn at(st: StackData, w: World) -> bool {
    &&& linked(st.undo_stack@)
    &&& linked(st.redo_stack@.reverse())
    &&& st.undo_stack@.len() > 0 ==> after(st.undo_stack@.last()) == w
    &&& st.redo_stack@.len() > 0 ==> before(st.redo_stack@.last()) == w
}
pub open spec fn same_stack(a: StackData, b: StackData) -> bool { a.undo_stack@ == b.undo_stack@ && a.redo_stack@ == b.redo_stack@ }
pub open spec fn sid(s: Option<u64>) -> u64 { if s is Some { s->Some_0 } else { 0 } }
/// everything but the stack with this id stays
pub open spec fn others_same(o: UndoRedoManager, n: UndoRedoManager, id: u64) -> bool {
    &&& n.stacks@.dom() =~= o.stacks@.dom()
    &&& forall|k: u64| k != id && o.stacks@.dom().contains(k) ==> #[trigger] n.stacks@[k] == o.stacks@[k]
}
pub open spec fn same_composite(o: UndoRedoManager, n: UndoRedoManager) -> bool {
    n.in_progress_composite == o.in_progress_composite && n.composite_nesting_level == o.composite_nesting_level && n.composite_stack_id == o.composite_stack_id
}
/// the commands of the open edit block continue the line
pub open spec fn at_composite(st: StackData, parts: Seq<Command>, w: World) -> bool {
    &&& linked(st.undo_stack@ + parts)
    &&& parts.len() > 0 ==> after(parts.last()) == w
    &&& parts.len() == 0 ==> at(st, w)
}
pub proof fn steps_same(a: Seq<Command>, b: Seq<Command>)
    requires steps(a) == steps(b),
    ensures a.len() == b.len(), linked(a) ==> linked(b), forall|i: int| 0 <= i < a.len() ==> before(#[trigger] a[i]) == before(b[i]) && after(a[i]) == after(b[i]),
{
    assert(steps(a).len() == a.len() && steps(b).len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies before(#[trigger] a[i]) == before(b[i]) && after(a[i]) == after(b[i]) by {
        assert(steps(a)[i] == (before(a[i]), after(a[i])));
        assert(steps(b)[i] == (before(b[i]), after(b[i])));
    }
    if linked(a) {
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < b.len() implies after(#[trigger] b[i]) == before(#[trigger] b[j]) by {
            assert(after(a[i]) == before(a[j]));
        }
    }
}
pub proof fn linked_push(s: Seq<Command>, c: Command)
    requires linked(s), s.len() > 0 ==> after(s.last()) == before(c),
    ensures linked(s.push(c)),
{}
pub proof fn linked_back(s: Seq<Command>)
    requires linked(s.reverse()), s.len() > 0,
    ensures linked(s.drop_last().reverse()), s.len() > 1 ==> after(s.last()) == before(s[s.len() - 2]),
{
    let t = s.reverse();
    assert(s.drop_last().reverse() =~= t.skip(1));
    if s.len() > 1 { assert(t[0] == s.last() && t[1] == s[s.len() - 2]); }
}
pub proof fn linked_front(s: Seq<Command>, c: Command)
    requires linked(s.reverse()), s.len() > 0 ==> after(c) == before(s.last()),
    ensures linked(s.push(c).reverse()),
{
    let t = s.push(c).reverse();
    assert(t =~= seq![c] + s.reverse());
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < t.len() implies after(#[trigger] t[i]) == before(#[trigger] t[j]) by {
        if i == 0 { assert(t[1] == s.last()); } else { assert(t[i] == s.reverse()[i - 1] && t[j] == s.reverse()[j - 1]); }
    }
}

impl CompositeCommand {
//@ fn crates/common/src/undo_redo.rs CompositeCommand::new
ensures r.commands@.len() == 0, r.stack_id == sid(stack_id),
//@ end
//@ fn crates/common/src/undo_redo.rs CompositeCommand::add_command
ensures final(self).commands@ == old(self).commands@.push(command), final(self).stack_id == old(self).stack_id,
//@ end
//@ fn crates/common/src/undo_redo.rs CompositeCommand::is_empty
ensures r == (self.commands@.len() == 0),
//@ end
// the contract of Command::undo / Command::redo, for the composite
//@ fn crates/common/src/undo_redo.rs UndoRedoCommand for CompositeCommand::undo
//@ param w: &mut Ghost<World>
requires old(self).commands@.len() > 0, linked(old(self).commands@), old(w)@ == after(old(self).commands@.last()),
ensures
    steps(final(self).commands@) == steps(old(self).commands@), final(self).stack_id == old(self).stack_id,
    r is Ok ==> final(w)@ == before(old(self).commands@[0]),
//@ rwstmt for command in self.commands.iter_mut().rev() { $b } => { let mut k = self.commands.len(); while k > 0 { k -= 1; let command = &mut self.commands[k]; $b } }
//@ loop 0
invariant
    k <= self.commands@.len(), self.commands@.len() > 0, linked(self.commands@),
    steps(self.commands@) == steps(old(self).commands@), self.stack_id == old(self).stack_id,
    k > 0 ==> w@ == after(self.commands@[k - 1]), k == 0 ==> w@ == before(self.commands@[0]),
ensures k == 0,
decreases k,
//@ loop 0 top
//raw let ghost was = self.commands@; let ghost at = k - 1;
//@ loop 0 bottom
assert(steps(self.commands@) =~= steps(was)) by { assert(self.commands@ =~= was.update(at, self.commands@[at])); }
steps_same(was, self.commands@);
//@ loop 0 after
steps_same(self.commands@, old(self).commands@);
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoCommand for CompositeCommand::redo
//@ param w: &mut Ghost<World>
requires old(self).commands@.len() > 0, linked(old(self).commands@), old(w)@ == before(old(self).commands@[0]),
ensures
    steps(final(self).commands@) == steps(old(self).commands@), final(self).stack_id == old(self).stack_id,
    r is Ok ==> final(w)@ == after(old(self).commands@.last()),
//@ rwstmt for command in self.commands.iter_mut() { $b } => { let mut k = 0; while k < self.commands.len() { let command = &mut self.commands[k]; k += 1; $b } }
//@ loop 0
invariant
    k <= self.commands@.len(), self.commands@.len() > 0, linked(self.commands@),
    steps(self.commands@) == steps(old(self).commands@), self.stack_id == old(self).stack_id,
    k < self.commands@.len() ==> w@ == before(self.commands@[k as int]), k == self.commands@.len() ==> w@ == after(self.commands@.last()),
ensures k == self.commands@.len(),
decreases self.commands@.len() - k,
//@ loop 0 top
//raw let ghost was = self.commands@; let ghost at = k as int;
//@ loop 0 bottom
assert(steps(self.commands@) =~= steps(was)) by { assert(self.commands@ =~= was.update(at, self.commands@[at])); }
steps_same(was, self.commands@);
//@ loop 0 after
steps_same(self.commands@, old(self).commands@);
//@ end
}

impl UndoRedoManager {
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::undo
//@ param w: &mut Ghost<World>
requires old(self).stacks@.dom().contains(sid(stack_id)), at(old(self).stacks@[sid(stack_id)], old(w)@),
ensures
    others_same(*old(self), *final(self), sid(stack_id)), same_composite(*old(self), *final(self)),
    ({
        let (o, n) = (old(self).stacks@[sid(stack_id)], final(self).stacks@[sid(stack_id)]);
        // the line of steps is the same in any case
        &&& line(n) == line(o)
        // nothing to undo: nothing happens
        &&& o.undo_stack@.len() == 0 ==> r is Ok && same_stack(n, o) && final(w)@ == old(w)@
        // one step back, and the document is the one before that step
        &&& o.undo_stack@.len() > 0 && r is Ok ==> n.undo_stack@.len() == o.undo_stack@.len() - 1 && final(w)@ == before(o.undo_stack@.last()) && at(n, final(w)@)
        &&& r is Err ==> n.undo_stack@.len() == o.undo_stack@.len()
    }),
//@ bottom
let (o, n) = (old(self).stacks@[sid(stack_id)], self.stacks@[sid(stack_id)]);
if o.undo_stack@.len() > 0 {
    let c = n.redo_stack@.last();
    assert(n.undo_stack@ =~= o.undo_stack@.drop_last());
    assert(n.redo_stack@ =~= o.redo_stack@.push(c));
    assert(steps(n.redo_stack@).reverse() =~= seq![(before(c), after(c))] + steps(o.redo_stack@).reverse());
    assert(steps(o.undo_stack@) =~= steps(n.undo_stack@).push((before(c), after(c))));
    assert(line(n) =~= line(o));
    linked_front(o.redo_stack@, c);
}
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::redo
//@ param w: &mut Ghost<World>
requires old(self).stacks@.dom().contains(sid(stack_id)), at(old(self).stacks@[sid(stack_id)], old(w)@),
ensures
    others_same(*old(self), *final(self), sid(stack_id)), same_composite(*old(self), *final(self)),
    ({
        let (o, n) = (old(self).stacks@[sid(stack_id)], final(self).stacks@[sid(stack_id)]);
        &&& line(n) == line(o)
        &&& o.redo_stack@.len() == 0 ==> r is Ok && same_stack(n, o) && final(w)@ == old(w)@
        &&& o.redo_stack@.len() > 0 && r is Ok ==> n.redo_stack@.len() == o.redo_stack@.len() - 1 && final(w)@ == after(o.redo_stack@.last()) && at(n, final(w)@)
        &&& r is Err ==> n.redo_stack@.len() == o.redo_stack@.len()
    }),
//@ bottom
let (o, n) = (old(self).stacks@[sid(stack_id)], self.stacks@[sid(stack_id)]);
if o.redo_stack@.len() > 0 {
    let c = n.undo_stack@.last();
    assert(n.redo_stack@ =~= o.redo_stack@.drop_last());
    assert(n.undo_stack@ =~= o.undo_stack@.push(c));
    assert(steps(o.redo_stack@).reverse() =~= seq![(before(c), after(c))] + steps(n.redo_stack@).reverse());
    assert(steps(n.undo_stack@) =~= steps(o.undo_stack@).push((before(c), after(c))));
    assert(line(n) =~= line(o));
    linked_back(o.redo_stack@);
    linked_push(o.undo_stack@, c);
}
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::begin_composite
requires old(self).composite_nesting_level < usize::MAX,
ensures
    final(self).stacks == old(self).stacks,
    r is Ok ==> final(self).composite_nesting_level == old(self).composite_nesting_level + 1 && final(self).composite_stack_id == stack_id
        && final(self).in_progress_composite is Some
        && (old(self).in_progress_composite is Some ==> final(self).in_progress_composite == old(self).in_progress_composite)
        && (old(self).in_progress_composite is None ==> final(self).in_progress_composite->Some_0.commands@.len() == 0 && final(self).in_progress_composite->Some_0.stack_id == sid(stack_id)),
    r is Err ==> same_composite(*old(self), *final(self)),
    // refused only when it would mix two stacks
    r is Err ==> old(self).composite_stack_id is Some && old(self).composite_stack_id != stack_id,
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::end_composite
//@ param w: Ghost<World>
requires
    old(self).stacks@.dom().contains(sid(old(self).composite_stack_id)),
    old(self).in_progress_composite is Some ==> at_composite(old(self).stacks@[sid(old(self).composite_stack_id)], old(self).in_progress_composite->Some_0.commands@, w@),
ensures
    final(self).composite_nesting_level == if old(self).composite_nesting_level > 0 { old(self).composite_nesting_level - 1 } else { 0 },
    others_same(*old(self), *final(self), sid(old(self).composite_stack_id)),
    ({
        let k = sid(old(self).composite_stack_id);
        let (o, n) = (old(self).stacks@[k], final(self).stacks@[k]);
        let outermost = old(self).composite_nesting_level <= 1;
        let parts = old(self).in_progress_composite->Some_0.commands@;
        // an inner block, and a block without changes, add no step
        &&& !outermost ==> n == o && final(self).in_progress_composite == old(self).in_progress_composite
        &&& outermost ==> final(self).in_progress_composite is None
        &&& (old(self).in_progress_composite is None || parts.len() == 0) ==> n == o
        // the outermost one with changes adds exactly one step and ends what could be redone
        &&& outermost && old(self).in_progress_composite is Some && parts.len() > 0 ==>
            line(n) == steps(o.undo_stack@).push((before(parts[0]), after(parts.last()))) && n.redo_stack@.len() == 0 && n.undo_stack@.len() == o.undo_stack@.len() + 1 && at(n, w@)
        &&& outermost && old(self).in_progress_composite is Some ==> at(n, w@)
    }),
//@ bottom
let k = sid(old(self).composite_stack_id);
let (o, n) = (old(self).stacks@[k], self.stacks@[k]);
if old(self).composite_nesting_level <= 1 && old(self).in_progress_composite is Some {
    let parts = old(self).in_progress_composite->Some_0.commands@;
    if parts.len() > 0 {
        composite_step(o.undo_stack@, parts, n.undo_stack@.last());
        assert(n.undo_stack@ =~= o.undo_stack@.push(n.undo_stack@.last()));
        assert(n.redo_stack@.reverse() =~= Seq::<Command>::empty());
        assert(steps(n.redo_stack@).reverse() =~= Seq::<(World, World)>::empty());
        assert(line(n) =~= steps(o.undo_stack@).push((before(parts[0]), after(parts.last()))));
    }
}
//@ before push 0
linked_part(old(self).stacks@[sid(old(self).composite_stack_id)].undo_stack@, composite.commands@);
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::cancel_composite
//@ param w: &mut Ghost<World>
requires
    old(self).in_progress_composite is Some ==> linked(old(self).in_progress_composite->Some_0.commands@) && old(self).in_progress_composite->Some_0.commands@.len() > 0 && after(old(self).in_progress_composite->Some_0.commands@.last()) == old(w)@,
ensures
    final(self).stacks == old(self).stacks, final(self).in_progress_composite is None, final(self).composite_stack_id is None,
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::add_command_to_stack
//@ param w: Ghost<World>
requires
    // the command has been executed: it starts where the line ended and the document is behind it
    old(self).stacks@.dom().contains(sid(stack_id)),
    after(command) == w@,
    old(self).in_progress_composite is None ==> at(old(self).stacks@[sid(stack_id)], before(command)),
    old(self).in_progress_composite is Some ==> at_composite(old(self).stacks@[sid(stack_id)], old(self).in_progress_composite->Some_0.commands@, before(command)),
ensures
    others_same(*old(self), *final(self), sid(stack_id)),
    final(self).composite_nesting_level == old(self).composite_nesting_level, final(self).composite_stack_id == old(self).composite_stack_id,
    ({
        let (o, n) = (old(self).stacks@[sid(stack_id)], final(self).stacks@[sid(stack_id)]);
        let step = (before(command), after(command));
        match old(self).in_progress_composite {
            // inside an edit block: a part of the block, not a step
            Some(c) => n == o && final(self).in_progress_composite is Some && (if r is Ok {
                    final(self).in_progress_composite->Some_0.commands@ == c.commands@.push(command) && final(self).in_progress_composite->Some_0.stack_id == c.stack_id
                    && at_composite(n, c.commands@.push(command), w@)
                } else { c.stack_id != sid(stack_id) && final(self).in_progress_composite == old(self).in_progress_composite }),
            // otherwise one more step, or the last step becomes one step of both; nothing can be redone
            None => {
                &&& r is Ok && final(self).in_progress_composite is None
                &&& at(n, w@) && n.redo_stack@.len() == 0
                &&& line(n) == steps(o.undo_stack@).push(step)
                    || (o.undo_stack@.len() > 0 && line(n) == steps(o.undo_stack@).drop_last().push((before(o.undo_stack@.last()), w@)))
            },
        }
    }),
//@ before add_command 0
//raw let ghost st = old(self).stacks@[sid(stack_id)]; let ghost ps = old(self).in_progress_composite->Some_0.commands@;
proof { assert(st.undo_stack@ + ps.push(command) =~= (st.undo_stack@ + ps).push(command)); assert(st.undo_stack@ + ps =~= if ps.len() == 0 { st.undo_stack@ } else { st.undo_stack@ + ps }); linked_push(st.undo_stack@ + ps, command); }
//@ after clear 0
let (o, n) = (old(self).stacks@[sid(stack_id)], *stack);
assert(steps(n.redo_stack@).reverse() =~= Seq::<(World, World)>::empty());
assert(n.redo_stack@.reverse() =~= Seq::<Command>::empty());
let c = n.undo_stack@.last();
assert(n.undo_stack@ =~= o.undo_stack@.drop_last().push(c));
assert(line(n) =~= steps(o.undo_stack@).drop_last().push((before(c), after(c))));
//@ after clear 1
let (o, n) = (old(self).stacks@[sid(stack_id)], *stack);
assert(steps(n.redo_stack@).reverse() =~= Seq::<(World, World)>::empty());
assert(n.redo_stack@.reverse() =~= Seq::<Command>::empty());
linked_push(o.undo_stack@, command);
assert(line(n) =~= steps(o.undo_stack@).push((before(command), after(command))));
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::can_undo
ensures r == (self.stacks@.dom().contains(sid(stack_id)) && self.stacks@[sid(stack_id)].undo_stack@.len() > 0),
//@ rw $x.map(|s| !s.undo_stack.is_empty()).unwrap_or(false) => match $x { Some(s) => !s.undo_stack.is_empty(), None => false }
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::can_redo
ensures r == (self.stacks@.dom().contains(sid(stack_id)) && self.stacks@[sid(stack_id)].redo_stack@.len() > 0),
//@ rw $x.map(|s| !s.redo_stack.is_empty()).unwrap_or(false) => match $x { Some(s) => !s.redo_stack.is_empty(), None => false }
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::clear_stack
ensures
    others_same(*old(self), *final(self), stack_id), same_composite(*old(self), *final(self)),
    old(self).stacks@.dom().contains(stack_id) ==> final(self).stacks@[stack_id].undo_stack@.len() == 0 && final(self).stacks@[stack_id].redo_stack@.len() == 0,
//@ end
//@ fn crates/common/src/undo_redo.rs UndoRedoManager::create_new_stack
requires old(self).next_stack_id < u64::MAX,
ensures
    r == old(self).next_stack_id, final(self).next_stack_id == r + 1,
    final(self).stacks@.dom() =~= old(self).stacks@.dom().insert(r),
    final(self).stacks@[r].undo_stack@.len() == 0 && final(self).stacks@[r].redo_stack@.len() == 0,
    forall|k: u64| k != r && old(self).stacks@.dom().contains(k) ==> #[trigger] final(self).stacks@[k] == old(self).stacks@[k],
//@ end
}
pub proof fn linked_part(u: Seq<Command>, p: Seq<Command>)
    requires linked(u + p),
    ensures linked(p), linked(u),
{
    let t = u + p;
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() implies after(#[trigger] p[i]) == before(#[trigger] p[j]) by {
        assert(t[u.len() + i] == p[i] && t[u.len() + j] == p[j]);
    }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < u.len() implies after(#[trigger] u[i]) == before(#[trigger] u[j]) by {
        assert(t[i] == u[i] && t[j] == u[j]);
    }
}
pub proof fn composite_step(u: Seq<Command>, p: Seq<Command>, c: Command)
    requires linked(u + p), p.len() > 0, before(c) == before(p[0]), after(c) == after(p.last()),
    ensures linked(u.push(c)),
{
    linked_part(u, p);
    if u.len() > 0 { assert((u + p)[u.len() - 1] == u.last() && (u + p)[u.len() as int] == p[0]); }
}
// ---- the property's sentences, over the contracts
/// undoing every step of a line reaches the document the line started from
pub proof fn undo_all(st: StackData, w: World)
    requires at(st, w), st.undo_stack@.len() > 0,
    ensures line(st)[0].0 == before(st.undo_stack@[0]), forall|i: int, j: int| 0 <= i && j == i + 1 && j < line(st).len() ==> (#[trigger] line(st)[i]).1 == (#[trigger] line(st)[j]).0,
{
    let (u, r) = (st.undo_stack@, st.redo_stack@);
    let l = line(st);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < l.len() implies (#[trigger] l[i]).1 == (#[trigger] l[j]).0 by {
        if j < u.len() { assert(after(u[i]) == before(u[j])); }
        else if i >= u.len() { assert(steps(r).reverse()[i - u.len()] == (before(r.reverse()[i - u.len()]), after(r.reverse()[i - u.len()]))); assert(steps(r).reverse()[j - u.len()] == (before(r.reverse()[j - u.len()]), after(r.reverse()[j - u.len()]))); }
        else { assert(l[j] == (before(r.last()), after(r.last()))); }
    }
}
/// undo and redo are inverse: after an undo the step that can be redone starts where the document is
/// and ends where it was, and both possibilities are what the line says
pub proof fn undo_redo_inverse(o: StackData, w: World, n: StackData, w2: World)
    requires at(o, w), o.undo_stack@.len() > 0, line(n) == line(o), n.undo_stack@.len() == o.undo_stack@.len() - 1, at(n, w2), w2 == before(o.undo_stack@.last()),
    ensures n.redo_stack@.len() > 0, before(n.redo_stack@.last()) == w2, after(n.redo_stack@.last()) == w,
{
    assert(line(n).len() == n.undo_stack@.len() + n.redo_stack@.len());
    assert(line(o).len() == o.undo_stack@.len() + o.redo_stack@.len());
    let k = n.undo_stack@.len() as int;
    assert(line(n)[k] == steps(n.redo_stack@).reverse()[0]);
    assert(line(o)[k] == steps(o.undo_stack@)[k]);
}
}
fn main() {}
