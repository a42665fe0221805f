// Typing without a selection and taking it back: text, formats, stored positions and the character count.
//@ use format_types.vrs
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the two fields of Block used here
//@ use edit_ops.vrs
//@ use edit_doc.vrs
//@ item crates/document_editing/src/dtos.rs InsertTextDto
//@ item crates/document_editing/src/use_cases/insert_text_uc.rs UndoData
pub open spec fn at_place(o: Store, id: u64) -> Option<Block> { if o.positions@.contains_key(id) { Some(Block { id, document_position: o.positions@[id] }) } else { None } }
pub open spec fn put_all(m: Map<u64, i64>, bs: Seq<Block>) -> Map<u64, i64>
    decreases bs.len()
{ if bs.len() == 0 { m } else { put_all(m, bs.drop_last()).insert(bs.last().id, bs.last().document_position) } }
impl Store {
    #[verifier::external_body] // TRUSTED: writing the records of several paragraphs, one after another
    pub fn update_block_multi(&mut self, bs: &Vec<Block>) -> (r: Result<Vec<Block>>)
        ensures final(self).texts == old(self).texts, final(self).format_runs == old(self).format_runs, final(self).count == old(self).count, final(self).frames == old(self).frames, final(self).members == old(self).members, final(self).flow == old(self).flow,
            r is Ok ==> final(self).positions@ == put_all(old(self).positions@, bs@),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading the records of several paragraphs, in the order asked (as stored, where positions are stored)
    pub fn get_block_multi(&self, ids: &Vec<EntityId>) -> (r: Result<Vec<Option<Block>>>) ensures r is Ok ==> r->Ok_0@ == ids@.map_values(|id: u64| at_place(*self, id)) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the document's frames
    pub fn frames_of(&self, id: &EntityId) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.frames@ { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the paragraphs of a frame
    pub fn blocks_of(&self, f: &EntityId) -> (r: Result<Vec<EntityId>>) ensures r is Ok ==> r->Ok_0@ == self.members@[*f] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: whether positions are derived from the text depends on the structure alone
    pub fn flows(&self) -> (r: bool) ensures r == self.flow@ { unimplemented!() }
}
pub open spec fn has(all: Seq<Block>, x: u64) -> bool { exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).id == x }
/// every block as the store has it
pub open spec fn faithful(o: Store, all: Seq<Block>) -> bool { forall|i: int| 0 <= i < all.len() ==> o.positions@.contains_key((#[trigger] all[i]).id) && all[i].document_position == o.positions@[all[i].id] }
pub open spec fn among(o: Store, x: u64, k: int) -> bool
    decreases k
{ k > 0 && (among(o, x, k - 1) || (o.members@[o.frames@[k - 1]].contains(x) && o.positions@.contains_key(x))) }
pub open spec fn present(bs: Seq<Option<Block>>) -> Seq<Block>
    decreases bs.len()
{ if bs.len() == 0 { Seq::empty() } else if bs.last() is Some { present(bs.drop_last()).push(bs.last()->0) } else { present(bs.drop_last()) } }
#[verifier::external_body] // TRUSTED: into_iter, flatten: the values present, in order
pub fn std_present(v: Vec<Option<Block>>) -> (r: Vec<Block>) ensures r@ == present(v@) { v.into_iter().flatten().collect() }
#[verifier::external_body] // TRUSTED: Vec::extend appends
pub fn std_append(v: &mut Vec<Block>, w: Vec<Block>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
pub proof fn present_has(o: Store, ids: Seq<u64>, x: u64)
    ensures has(present(ids.map_values(|id: u64| at_place(o, id))), x) <==> ids.contains(x) && o.positions@.contains_key(x), faithful(o, present(ids.map_values(|id: u64| at_place(o, id)))),
    decreases ids.len(),
{
    let f = |id: u64| at_place(o, id); let bs = ids.map_values(f);
    if ids.len() > 0 {
        let d = ids.drop_last(); present_has(o, d, x); assert(bs.drop_last() =~= d.map_values(f)); assert(bs.last() == at_place(o, ids.last()));
        let p = present(d.map_values(f));
        assert(ids.contains(x) <==> d.contains(x) || ids.last() == x) by { if d.contains(x) { let i = d.index_of(x); assert(ids[i] == x); } if ids.last() == x { assert(ids[ids.len() - 1] == x); } if ids.contains(x) && ids.last() != x { let i = ids.index_of(x); assert(d[i] == x); } }
        if bs.last() is Some { has_push(p, bs.last()->0, x); }
    }
}
pub proof fn has_push(s: Seq<Block>, b: Block, x: u64)
    ensures has(s.push(b), x) <==> has(s, x) || b.id == x,
{
    let u = s.push(b);
    if has(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == x; assert(u[i].id == x); }
    if b.id == x { assert(u[s.len() as int].id == x); }
    if has(u, x) && b.id != x { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).id == x; assert(s[i].id == x); }
}
pub proof fn has_add(s: Seq<Block>, t: Seq<Block>, x: u64)
    ensures has(s + t, x) <==> has(s, x) || has(t, x),
{
    let u = s + t;
    if has(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == x; assert(u[i].id == x); }
    if has(t, x) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).id == x; assert(u[s.len() + i].id == x); }
    if has(u, x) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).id == x; if i < s.len() { assert(s[i].id == x); } else { assert(t[i - s.len()].id == x); } }
}
/// the paragraphs named by ids moved by d, nothing else
pub open spec fn moved_by(n: Map<u64, i64>, o: Map<u64, i64>, ids: Seq<u64>, d: int) -> bool {
    &&& n.dom() == o.dom()
    &&& forall|x: u64| #[trigger] o.contains_key(x) ==> n[x] == o[x] + (if ids.contains(x) { d } else { 0 })
}
/// records for the paragraphs ids, moved by d
pub open spec fn moves(o: Map<u64, i64>, bs: Seq<Block>, ids: Seq<u64>, d: int) -> bool {
    bs.len() == ids.len() && forall|k: int| 0 <= k < bs.len() ==> (#[trigger] bs[k]).id == ids[k] && o.contains_key(ids[k]) && bs[k].document_position == o[ids[k]] + d
}
pub proof fn put_moves(o: Map<u64, i64>, bs: Seq<Block>, ids: Seq<u64>, d: int)
    requires moves(o, bs, ids, d),
    ensures moved_by(put_all(o, bs), o, ids, d),
    decreases bs.len(),
{
    if bs.len() > 0 {
        let (b1, i1) = (bs.drop_last(), ids.drop_last()); assert(moves(o, b1, i1, d)) by { assert forall|k: int| 0 <= k < b1.len() implies (#[trigger] b1[k]).id == i1[k] && o.contains_key(i1[k]) && b1[k].document_position == o[i1[k]] + d by { assert(bs[k].id == ids[k]); } }
        put_moves(o, b1, i1, d); let n1 = put_all(o, b1); let n = put_all(o, bs); let l = bs[bs.len() - 1]; assert(l.id == ids.last());
        assert(n.dom() =~= o.dom());
        assert forall|x: u64| #[trigger] o.contains_key(x) implies n[x] == o[x] + (if ids.contains(x) { d } else { 0 }) by {
            if i1.contains(x) { let i = i1.index_of(x); assert(ids[i] == x); }
            if x == l.id { assert(ids[ids.len() - 1] == x); } else if ids.contains(x) { let i = ids.index_of(x); assert(i1[i] == x); }
        }
    } else { assert(n_id(ids)); }
}
pub open spec fn n_id(ids: Seq<u64>) -> bool { ids.len() == 0 ==> forall|x: u64| !#[trigger] ids.contains(x) }
pub open spec fn small(o: Store) -> bool { 0 <= o.count@ <= 0x1000_0000_0000_0000 && forall|x: u64| #[trigger] o.positions@.contains_key(x) ==> -0x1000_0000_0000_0000 <= o.positions@[x] <= 0x1000_0000_0000_0000 }
/// a paragraph of the document that stands behind
pub open spec fn later(o: Store, b: Block, x: u64) -> bool { x != b.id && among(o, x, o.frames@.len() as int) && o.positions@[x] > b.document_position }
pub open spec fn typed(n: Store, o: Store, b: Block, a: int, ins: Seq<char>, u: UndoData) -> bool {
    &&& edited(n, o, b.id, a, a, ins)
    &&& n.count@ == o.count@ + ins.len() && n.frames == o.frames && n.members == o.members && n.flow == o.flow
    &&& moved_by(n.positions@, o.positions@, u.shifted_block_ids@, ins.len() as int)
    &&& forall|x: u64| #[trigger] u.shifted_block_ids@.contains(x) <==> !o.flow@ && later(o, b, x)
}
/// what is remembered suffices to go back from n to o
pub open spec fn remembers(u: UndoData, n: Store, o: Store, a: int, ins: Seq<char>) -> bool {
    &&& u.block_id == u.original_block.id && o.texts@.contains_key(u.block_id) && 0 <= a <= o.texts@[u.block_id].len() && blen(o.texts@[u.block_id]) + blen(ins) <= i32::MAX
    &&& n.texts@ == o.texts@.insert(u.block_id, splice(o.texts@[u.block_id], a, a, ins))
    &&& u.original_format_runs@ == runs_of(o.format_runs@, u.block_id) && forall|x: u64| x != u.block_id ==> #[trigger] runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)
    &&& u.inserted_byte_offset == blen(o.texts@[u.block_id].take(a)) && u.inserted_byte_len == blen(ins)
    &&& u.original_character_count == o.count@
    &&& o.positions@.contains_key(u.block_id) && u.original_block.document_position == o.positions@[u.block_id] && !u.shifted_block_ids@.contains(u.block_id)
    &&& forall|x: u64| #[trigger] u.shifted_block_ids@.contains(x) ==> o.positions@.contains_key(x)
    &&& moved_by(n.positions@, o.positions@, u.shifted_block_ids@, u.shifted_by as int) && 0 <= u.shifted_by <= i32::MAX
}
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs execute_insert_simple
//@ from let original_block = $x;
//@ to let undo_data = $x;
//@ rename type_at
//@ yields Ok((undo_data, inserted_char_len))
//@ sig (uow: &mut Store, block: Block, doc_id: EntityId, document: Document, offset: i64, dto: &InsertTextDto) -> Result<(UndoData, i64)>
requires ready(*old(uow), block.id), 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX,
    old(uow).positions@.contains_key(block.id), block.document_position == old(uow).positions@[block.id], document.character_count == old(uow).count@, small(*old(uow)),
ensures r is Ok ==> typed(*final(uow), *old(uow), block, offset as int, dto.text@, r->Ok_0.0) && r->Ok_0.1 == dto.text@.len() && remembers(r->Ok_0.0, *final(uow), *old(uow), offset as int, dto.text@) && r->Ok_0.0.block_id == block.id && r->Ok_0.0.shifted_by == dto.text@.len(),
//@ ret r
//@ rwstmt let original_format_runs = $x; => let original_format_runs = uow.format_runs.read(block.id);
//@ rwstmt let original_block_images = $x; => let original_block_images = std_no_images();
//@ rwstmt let mut new_plain = $x; =>
//@ rwstmt new_plain.insert_str($a, $b); =>
//@ rwstmt ub.updated_at = $x; =>
//@ rwstmt updated_doc.updated_at = $x; =>
//@ rw dto.text.len() => std_len(&dto.text)
//@ rw dto.text.chars().count() => std_char_count(&dto.text)
//@ rw common::database::rope_helpers::rope_positions_match_flow(&store) => uow.flows()
//@ rw uow.get_document_relationship($a, $b) => uow.frames_of($a)
//@ rw uow.get_frame_relationship($a, $b) => uow.blocks_of($a)
//@ rw all_blocks.extend(blocks_opt.into_iter().flatten()) => std_append(&mut all_blocks, std_present(blocks_opt))
//@ top
//raw let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); let ghost o = *uow; proof { blen_ge(t); blen_ge(dto.text@); still_there(t, offset as int, offset as int); take_all(t); blen_mono(t, offset as int, offset as int); cut_ok(t, s, offset as int, offset as int, s); run_inside(t, s); }
//@ after shift_runs_for_insert 0
filled(t, s, offset as int, offset as int, dto.text@, s, runs@);
//@ ahead let mut shifted_block_ids: Vec<EntityId> = $x;
//raw let ghost mid = *uow; let ghost n = dto.text@.len() as int; proof { assert(mid.positions@ =~= o.positions@); }
//@ loop 0 it
invariant
    *uow == mid, mid.positions@ == o.positions@, mid.frames == o.frames, mid.members == o.members, it.seq().len() == o.frames@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == o.frames@[i],
    faithful(o, all_blocks@), forall|x: u64| #[trigger] has(all_blocks@, x) <==> among(o, x, it.index@ as int),
//@ loop 0 top
//raw let ghost pre = all_blocks@; let ghost k = it.index@ as int; proof { assert(*it.seq()[k] == o.frames@[k]); }
//@ loop 0 bottom
{
    let ids = o.members@[o.frames@[k]]; let more = present(ids.map_values(|id: u64| at_place(mid, id)));
    assert forall|x: u64| #[trigger] has(all_blocks@, x) <==> among(o, x, k + 1) by { present_has(mid, ids, x); has_add(pre, more, x); if ids.len() == 0 { assert(!ids.contains(x)); assert(pre =~= pre + more); } }
    present_has(mid, ids, 0);
    assert(faithful(o, all_blocks@)) by { assert forall|i: int| 0 <= i < all_blocks@.len() implies o.positions@.contains_key((#[trigger] all_blocks@[i]).id) && all_blocks@[i].document_position == o.positions@[all_blocks@[i].id] by { if i < pre.len() { assert(all_blocks@[i] == pre[i]); } else { assert(all_blocks@[i] == more[i - pre.len()]); } } }
}
//@ loop 1 before
//raw let ghost all = all_blocks@;
//@ loop 1 it
invariant
    *uow == mid, faithful(o, all), small(o), inserted_char_len == n, 0 <= n <= i32::MAX, it.seq() == all, moves(o.positions@, blocks_to_update@, shifted_block_ids@, n),
    forall|x: u64| #[trigger] shifted_block_ids@.contains(x) <==> x != block.id && has(all.take(it.index@ as int), x) && o.positions@[x] > block.document_position,
//@ loop 1 top
//raw let ghost k = it.index@ as int; let ghost ids0 = shifted_block_ids@; let ghost bs0 = blocks_to_update@; proof { assert(b == all[k]); assert(o.positions@.contains_key(all[k].id)); }
//@ loop 1 bottom
{
    assert(all.take(k + 1) =~= all.take(k).push(all[k]));
    assert forall|x: u64| #[trigger] shifted_block_ids@.contains(x) <==> x != block.id && has(all.take(k + 1), x) && o.positions@[x] > block.document_position by { has_push(all.take(k), all[k], x); if shifted_block_ids@.len() > ids0.len() { contains_push(ids0, all[k].id, x); } }
    assert(moves(o.positions@, blocks_to_update@, shifted_block_ids@, n));
}
//@ loop 1 after
assert(all.take(all.len() as int) =~= all); put_moves(o.positions@, blocks_to_update@, shifted_block_ids@, n);
//@ end
/// all there: one record for every id asked
pub proof fn present_all(o: Store, ids: Seq<u64>)
    requires forall|k: int| 0 <= k < ids.len() ==> o.positions@.contains_key(#[trigger] ids[k]),
    ensures ({ let p = present(ids.map_values(|id: u64| at_place(o, id))); p.len() == ids.len() && forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).id == ids[k] && p[k].document_position == o.positions@[ids[k]] }),
    decreases ids.len(),
{
    let f = |id: u64| at_place(o, id); let bs = ids.map_values(f);
    if ids.len() > 0 { let d = ids.drop_last(); assert forall|k: int| 0 <= k < d.len() implies o.positions@.contains_key(#[trigger] d[k]) by { assert(ids[k] == d[k]); } present_all(o, d); assert(bs.drop_last() =~= d.map_values(f)); assert(o.positions@.contains_key(ids[ids.len() - 1])); assert(bs.last() == at_place(o, ids.last())); }
}
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs UndoRedoCommand for InsertTextUseCase::undo
//@ from uow.update_block(&data.original_block)?;
//@ to uow.update_document(&doc)?;
//@ rename take_back
//@ yields Ok(())
//@ sig (uow: &mut Store, data: &UndoData, was: Ghost<Store>, a: Ghost<int>, ins: Ghost<Seq<char>>) -> Result<()>
requires remembers(*data, *old(uow), was@, a@, ins@), small(was@),
ensures r is Ok ==> final(uow).texts@ == was@.texts@ && final(uow).positions@ == was@.positions@ && final(uow).count@ == was@.count@ && forall|x: u64| #[trigger] runs_of(final(uow).format_runs@, x) == runs_of(was@.format_runs@, x),
//@ ret r
//@ rwstmt store.block_images.write().unwrap().insert($a, $b); =>
//@ rwstmt b.updated_at = $x; =>
//@ rwstmt doc.updated_at = $x; =>
//@ rwstmt let mut doc = $x; => let mut doc = std_found(uow.document(&data.doc_id)?)?;
//@ rw store.format_runs.write().unwrap().insert($a, $b) => uow.format_runs.put($a, std_clone_runs(&$b))
//@ rw std_clone_runs(&$x.clone()) => std_clone_runs(&$x)
//@ rw uow.get_block_multi($a)?.into_iter().flatten() => std_present(uow.get_block_multi($a)?)
//@ top
//raw let ghost n = *uow; let ghost o = was@; let ghost id = data.block_id; let ghost ids = data.shifted_block_ids@; let ghost d = data.shifted_by as int; proof { unsplice(o.texts@[id], a@, ins@); blen_mono(o.texts@[id], a@, a@); }
//@ ahead let mut shifted_back: Vec<Block> = $x;
//raw let ghost mid = *uow; proof {
    assert(mid.positions@ =~= n.positions@) by { assert(o.positions@.contains_key(id)); assert(n.positions@[id] == o.positions@[id] + 0); }
    assert(mid.texts@ =~= o.texts@);
    assert forall|k: int| 0 <= k < ids.len() implies mid.positions@.contains_key(#[trigger] ids[k]) by { assert(ids.contains(ids[k])); assert(o.positions@.contains_key(ids[k])); }
    present_all(mid, ids);
}
//@ loop 0 it
invariant
    *uow == mid, mid.positions@ == n.positions@, data.shifted_by == d, data.shifted_block_ids@ == ids, 0 <= d <= i32::MAX, small(o), moved_by(n.positions@, o.positions@, ids, d), forall|x: u64| #[trigger] ids.contains(x) ==> o.positions@.contains_key(x),
    it.seq() == present(ids.map_values(|id: u64| at_place(mid, id))), it.seq().len() == ids.len(), forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).id == ids[k] && it.seq()[k].document_position == n.positions@[ids[k]],
    moves(n.positions@, shifted_back@, ids.take(it.index@ as int), -d),
//@ loop 0 top
//raw let ghost k = it.index@ as int; let ghost pre = shifted_back@; proof { assert(it.seq()[k].id == ids[k]); assert(ids.contains(ids[k])); assert(o.positions@.contains_key(ids[k])); }
//@ loop 0 bottom
assert(ids.take(k + 1) =~= ids.take(k).push(ids[k])); assert(moves(n.positions@, shifted_back@, ids.take(k + 1), -d));
//@ loop 0 after
assert(ids.take(ids.len() as int) =~= ids); put_moves(n.positions@, shifted_back@, ids, -d); assert(put_all(mid.positions@, shifted_back@) =~= o.positions@); assert(shifted_back@.len() == 0 ==> put_all(mid.positions@, shifted_back@) == mid.positions@);
//@ ahead Ok(())
assert(uow.positions@ == o.positions@); assert(uow.texts@ == o.texts@); assert(uow.count@ == o.count@); assert forall|x: u64| #[trigger] runs_of(uow.format_runs@, x) == runs_of(o.format_runs@, x) by { assert(x != id ==> runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)); }
//@ end
/// what merging two insertions into one command does to what the first remembers
//@ fn crates/document_editing/src/use_cases/insert_text_uc.rs UndoRedoCommand for InsertTextUseCase::merge
//@ from self_undo.inserted_byte_len += $x;
//@ to self_undo.shifted_by += $x;
//@ rename widen
//@ yields ()
//@ sig (self_undo: &mut UndoData, other_undo: &UndoData)
requires old(self_undo).inserted_byte_len + other_undo.inserted_byte_len <= u32::MAX, 0 <= old(self_undo).shifted_by <= i32::MAX, 0 <= other_undo.shifted_by <= i32::MAX,
ensures *final(self_undo) == (UndoData { inserted_byte_len: (old(self_undo).inserted_byte_len + other_undo.inserted_byte_len) as u32, shifted_by: (old(self_undo).shifted_by + other_undo.shifted_by) as i64, ..*old(self_undo) }),
//@ end
/// typing and taking it back is nothing; typing twice, merging and taking back is nothing
pub fn typed_and_back(uow: &mut Store, block: Block, doc_id: EntityId, document: Document, offset: i64, dto: &InsertTextDto) -> (r: Result<()>)
    requires ready(*old(uow), block.id), 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX,
        old(uow).positions@.contains_key(block.id), block.document_position == old(uow).positions@[block.id], document.character_count == old(uow).count@, small(*old(uow)),
    ensures r is Ok ==> final(uow).texts@ == old(uow).texts@ && final(uow).positions@ == old(uow).positions@ && final(uow).count@ == old(uow).count@ && forall|x: u64| #[trigger] runs_of(final(uow).format_runs@, x) == runs_of(old(uow).format_runs@, x),
{
    let ghost o = *uow;
    let (u, n) = type_at(uow, block, doc_id, document, offset, dto)?;
    take_back(uow, &u, Ghost(o), Ghost(offset as int), Ghost(dto.text@))
}
/// what holds when a second insertion follows where the first ended, and both become one command
pub fn typed_twice_and_back(uow: &mut Store, block: Block, doc_id: EntityId, document: Document, offset: i64, dto: &InsertTextDto, dto2: &InsertTextDto) -> (r: Result<()>)
    requires ready(*old(uow), block.id), 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) + blen(dto2.text@) <= i32::MAX, dto.text@.len() + dto2.text@.len() <= 200,
        old(uow).positions@.contains_key(block.id), block.document_position == old(uow).positions@[block.id], document.character_count == old(uow).count@, small(*old(uow)), old(uow).count@ <= 0x0fff_ffff_ffff_0000, forall|x: u64| #[trigger] old(uow).positions@.contains_key(x) ==> -0x0fff_ffff_ffff_0000 <= old(uow).positions@[x] <= 0x0fff_ffff_ffff_0000,
    ensures r is Ok ==> final(uow).texts@ == old(uow).texts@ && final(uow).positions@ == old(uow).positions@ && final(uow).count@ == old(uow).count@ && forall|x: u64| #[trigger] runs_of(final(uow).format_runs@, x) == runs_of(old(uow).format_runs@, x),
{
    let ghost o = *uow; let ghost t = uow.texts@[block.id]; let ghost (i1, i2) = (dto.text@, dto2.text@); let ghost a = offset as int;
    let (mut u, n) = type_at(uow, block, doc_id, document, offset, dto)?;
    let ghost u1 = u; let ghost m = *uow;
    let document2 = Document { character_count: document.character_count + n };
    proof { blen_ge(t); blen_ge(i1); unsplice(t, a, i1); assert(small(m)) by { assert forall|x: u64| #[trigger] m.positions@.contains_key(x) implies -0x1000_0000_0000_0000 <= m.positions@[x] <= 0x1000_0000_0000_0000 by { assert(o.positions@.contains_key(x)); } } assert(m.positions@.contains_key(block.id)); }
    let (u2, n2) = type_at(uow, block, doc_id, document2, offset + n, dto2)?;
    proof { blen_mono(t, a, a); blen_ge(t); }
    widen(&mut u, &u2);
    proof { both(o, m, *uow, u1, u2, u, block, a, i1, i2); }
    take_back(uow, &u, Ghost(o), Ghost(offset as int), Ghost(dto.text@ + dto2.text@))
}
pub proof fn both(o: Store, m: Store, z: Store, u1: UndoData, u2: UndoData, u: UndoData, block: Block, a: int, i1: Seq<char>, i2: Seq<char>)
    requires typed(m, o, block, a, i1, u1), typed(z, m, block, a + i1.len(), i2, u2), remembers(u1, m, o, a, i1), remembers(u2, z, m, a + i1.len(), i2), u1.block_id == block.id, u2.block_id == block.id,
        blen(o.texts@[block.id]) + blen(i1) + blen(i2) <= i32::MAX, i1.len() + i2.len() <= 200, u1.shifted_by == i1.len(), u2.shifted_by == i2.len(),
        u == (UndoData { inserted_byte_len: (u1.inserted_byte_len + u2.inserted_byte_len) as u32, shifted_by: (u1.shifted_by + u2.shifted_by) as i64, ..u1 }),
    ensures remembers(u, z, o, a, i1 + i2),
{
    hide(written); hide(styled); hide(splice);
    let t = o.texts@[block.id]; let one = splice(t, a, a, i1 + i2);
    assert(splice(splice(t, a, a, i1), a + i1.len(), a + i1.len(), i2) == one) by { reveal(splice); assert(splice(splice(t, a, a, i1), a + i1.len(), a + i1.len(), i2) =~= one); }
    blen_add(i1, i2);
    assert(m.texts@[block.id] == splice(t, a, a, i1));
    assert(z.texts@ =~= o.texts@.insert(block.id, one));
    assert forall|x: u64| #[trigger] u2.shifted_block_ids@.contains(x) <==> u1.shifted_block_ids@.contains(x) by {
        same_later(m, o, block, x, o.frames@.len() as int);
        assert(u1.shifted_block_ids@.contains(x) <==> !o.flow@ && later(o, block, x)); assert(u2.shifted_block_ids@.contains(x) <==> !m.flow@ && later(m, block, x));
        if !o.flow@ && among(o, x, o.frames@.len() as int) && x != block.id {
            assert(o.positions@.contains_key(x)); assert(o.positions@.contains_key(block.id));
            assert(m.positions@[x] == o.positions@[x] + (if u1.shifted_block_ids@.contains(x) { i1.len() as int } else { 0 }));
        }
    }
    assert(z.positions@.dom() == o.positions@.dom());
    assert(moved_by(z.positions@, o.positions@, u.shifted_block_ids@, u.shifted_by as int)) by {
        assert forall|x: u64| #[trigger] o.positions@.contains_key(x) implies z.positions@[x] == o.positions@[x] + (if u.shifted_block_ids@.contains(x) { u.shifted_by as int } else { 0 }) by { assert(m.positions@.contains_key(x)); assert(u2.shifted_block_ids@.contains(x) <==> u1.shifted_block_ids@.contains(x)); }
    }
    assert forall|x: u64| x != block.id implies #[trigger] runs_of(z.format_runs@, x) == runs_of(o.format_runs@, x) by { assert(runs_of(m.format_runs@, x) == runs_of(o.format_runs@, x)); }
}
pub proof fn same_later(m: Store, o: Store, b: Block, x: u64, k: int)
    requires m.frames == o.frames, m.members == o.members, m.positions@.dom() == o.positions@.dom(),
    ensures among(m, x, k) == among(o, x, k), among(o, x, k) ==> o.positions@.contains_key(x),
    decreases k,
{ if k > 0 { same_later(m, o, b, x, k - 1); assert(m.positions@.contains_key(x) == o.positions@.contains_key(x)); } }
pub proof fn contains_push(s: Seq<u64>, y: u64, x: u64)
    ensures s.push(y).contains(x) <==> s.contains(x) || y == x,
{
    let u = s.push(y);
    if s.contains(x) { let i = s.index_of(x); assert(u[i] == x); }
    if y == x { assert(u[s.len() as int] == x); }
    if u.contains(x) && y != x { let i = u.index_of(x); assert(s[i] == x); }
}
}
