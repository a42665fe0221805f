// Text inserted in a given format, breaking a paragraph, and taking an insertion back.
//@ use format_types.vrs
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
#[derive(Clone, Copy)]
pub struct Block { pub id: u64, pub document_position: i64 } // TRUSTED: the two fields of Block used here
//@ use edit_ops.vrs
//@ use edit_doc.vrs
//@ item crates/document_editing/src/use_cases/insert_formatted_text_uc.rs SimpleUndoData
//@ item crates/document_editing/src/dtos.rs InsertFormattedTextDto
/// the format a formatted insertion asks for (proved field by field in restyle_set)
pub uninterp spec fn asked(dto: InsertFormattedTextDto) -> CharacterFormat;
#[verifier::external_body] // proved for dto_to_character_format in asked_format.vrs: it depends on the request alone
pub fn the_asked(dto: &InsertFormattedTextDto) -> (r: CharacterFormat) ensures r == asked(*dto) { unimplemented!() }
/// ins put in at a, every character of it in format f; the characters around keep theirs
pub open spec fn put_in(t: Seq<char>, s: Seq<FormatRun>, a: int, ins: Seq<char>, f: CharacterFormat, t1: Seq<char>, s1: Seq<FormatRun>) -> bool {
    &&& t1 == splice(t, a, a, ins) && styled(t1, s1)
    &&& forall|i: int| 0 <= i < t1.len() ==> #[trigger] look(t1, s1, i) == put_look(t, s, a, ins.len() as int, f, i)
}
pub open spec fn put_look(t: Seq<char>, s: Seq<FormatRun>, a: int, n: int, f: CharacterFormat, i: int) -> Option<CharacterFormat> { if i < a { look(t, s, i) } else if i < a + n { Some(f) } else { look(t, s, i - n) } }
pub open spec fn inserted_as(n: Store, o: Store, id: u64, a: int, ins: Seq<char>, f: CharacterFormat) -> bool {
    &&& n.texts@ == o.texts@.insert(id, splice(o.texts@[id], a, a, ins))
    &&& put_in(o.texts@[id], runs_of(o.format_runs@, id), a, ins, f, n.texts@[id], runs_of(n.format_runs@, id))
    &&& forall|x: u64| x != id ==> #[trigger] runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)
}
pub open spec fn one_run(r: Seq<FormatRun>, lo: int, hi: int, f: CharacterFormat) -> bool { r.len() == 1 && r[0].byte_start == lo && r[0].byte_end == hi && r[0].format == f }
pub proof fn one_run_shows(r: Seq<FormatRun>, lo: int, hi: int, f: CharacterFormat)
    requires one_run(r, lo, hi, f), 0 <= lo < hi,
    ensures wf(r), within(r, lo, hi), forall|b: int| lo <= b < hi ==> #[trigger] fmt_at(r, b) == Some(f),
{ assert forall|b: int| lo <= b < hi implies #[trigger] fmt_at(r, b) == Some(f) by { fmt_at_hit(r, 0, b); } }
pub open spec fn painted(s: Seq<FormatRun>, lo: int, hi: int, f: CharacterFormat, s1: Seq<FormatRun>) -> bool { forall|b: int| #[trigger] fmt_at(s1, b) == if lo <= b < hi { Some(f) } else { fmt_at(s, b) } }
/// painting whole characters
pub proof fn paint(t: Seq<char>, s: Seq<FormatRun>, a: int, ins: Seq<char>, f: CharacterFormat, s1: Seq<FormatRun>, s2: Seq<FormatRun>)
    requires 0 <= a <= t.len(), written(t, s, a, a, ins, splice(t, a, a, ins), s1), canonical(s2), painted(s1, blen(t.take(a)) as int, (blen(t.take(a)) + blen(ins)) as int, f, s2),
    ensures put_in(t, s, a, ins, f, splice(t, a, a, ins), s2),
{
    let u = splice(t, a, a, ins); let n = ins.len() as int; let (lo, m) = (blen(t.take(a)) as int, blen(ins) as int);
    assert(u.len() == t.len() + n);
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s2, x) == put_look(t, s, a, n, f, i) by {
        splice_bytes(t, a, a, ins, i); splice_bytes(t, a, a, ins, i + 1); take_all(ins);
        assert(fmt_at(s2, x) == if lo <= x < lo + m { Some(f) } else { fmt_at(s1, x) });
        assert(look(u, s1, i) == new_look(t, s, a, a, n, i));
        assert(fmt_at(s1, x) == look(u, s1, i));
        if i < a { blen_mono(t, i + 1, a); } else if i < a + n { blen_mono(ins, i + 1 - a, n); blen_mono(ins, 0, i - a); } else { blen_mono(t, a, i - n); }
    }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] look(u, s2, i) == put_look(t, s, a, n, f, i) by { take_step(u, i); assert(in_char(u, blen(u.take(i)) as int, i)); }
    assert forall|x: int, i: int| #[trigger] in_char(u, x, i) implies fmt_at(s2, x) == look(u, s2, i) by { assert(look(u, s2, i) == put_look(t, s, a, n, f, i)); }
    assert forall|x: int| !(0 <= x < blen(u)) implies #[trigger] fmt_at(s2, x) is None by {
        assert(fmt_at(s1, x) is None); assert(fmt_at(s2, x) == if lo <= x < lo + m { Some(f) } else { fmt_at(s1, x) });
        splice_bytes(t, a, a, ins, u.len() as int); take_all(u); take_all(t); blen_mono(t, a, t.len() as int);
    }
}
pub proof fn few_runs(s: Seq<FormatRun>)
    requires wf(s),
    ensures s.len() <= u32::MAX, s.len() > 0 ==> s.len() <= s.last().byte_end,
    decreases s.len(),
{ if s.len() > 1 { take_wf(s, s.len() - 1); few_runs(s.take(s.len() - 1)); assert(s[s.len() - 2].byte_end <= s[s.len() - 1].byte_start); } }
//@ rwtype &mut Box<dyn InsertFormattedTextUnitOfWorkTrait> => &mut Store
//@ rw dto.text.len() => std_len(&dto.text)
//@ rw dto_to_character_format($x) => the_asked($x)
//@ rw vec![$x] => std_vec1($x)
#[verifier::external_body] // TRUSTED: vec![x] is the list of x
pub fn std_vec1(x: FormatRun) -> (r: Vec<FormatRun>) ensures r@.len() == 1, r@[0] == x { vec![x] }
//@ fn crates/document_editing/src/use_cases/insert_formatted_text_uc.rs delete_range_in_block
requires ready(*old(uow), block.id), start_offset < end_offset ==> 0 <= start_offset <= end_offset <= old(uow).texts@[block.id].len(),
ensures r is Ok && start_offset < end_offset ==> edited(*final(uow), *old(uow), block.id, start_offset as int, end_offset as int, Seq::empty()) && r->Ok_0 == end_offset - start_offset,
    start_offset >= end_offset ==> r is Ok && *final(uow) == *old(uow) && r->Ok_0 == 0,
//@ ret r
//@ top
//raw let ghost o = *uow; let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); proof { blen_ge(t); if start_offset < end_offset { blen_mono(t, start_offset as int, end_offset as int); still_there(t, start_offset as int, end_offset as int); } take_all(t); }
//@ after shift_runs_for_delete 0
cut_ok(t, s, start_offset as int, end_offset as int, runs@); emptied(t, s, start_offset as int, end_offset as int, runs@);
//@ end
//@ fn crates/document_editing/src/use_cases/insert_formatted_text_uc.rs insert_formatted_at
requires ready(*old(uow), block.id), 0 <= char_offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX,
ensures r is Ok ==> inserted_as(*final(uow), *old(uow), block.id, char_offset as int, dto.text@, asked(*dto)) && r->Ok_0.0 == blen(old(uow).texts@[block.id].take(char_offset as int)) && r->Ok_0.1 == blen(dto.text@),
//@ ret r
//@ rwstmt let mut new_plain = $x; =>
//@ rwstmt new_plain.insert_str($a, $b); =>
//@ top
//raw let ghost t = uow.texts@[block.id]; let ghost s = runs_of(uow.format_runs@, block.id); let ghost o = *uow; let ghost a = char_offset as int; let ghost ins = dto.text@; let ghost mut s1: Seq<FormatRun> = Seq::empty(); let ghost mut s2: Seq<FormatRun> = Seq::empty(); proof { blen_ge(t); blen_ge(ins); still_there(t, a, a); take_all(t); blen_mono(t, a, a); cut_ok(t, s, a, a, s); run_inside(t, s); }
//@ after shift_runs_for_insert 0
s1 = runs@; s2 = runs@; filled(t, s, a, a, ins, s, s1);
//@ ahead splice_range($a, $b, $c);
//raw proof { few_runs(runs@); } let ghost nr = seq![new_run]; proof { one_run_shows(nr, byte_offset as int, (byte_offset + inserted_byte_len) as int, asked(*dto)); }
//@ after splice_range 0
s2 = runs@;
//@ ahead Ok((byte_offset, inserted_byte_len))
//raw
proof {
    let (lo, m) = (blen(t.take(a)) as int, blen(ins) as int);
    assert(painted(s1, lo, lo + m, asked(*dto), s2)) by {
        if m > 0 { let nr = seq![FormatRun { byte_start: lo as u32, byte_end: (lo + m) as u32, format: asked(*dto) }]; one_run_shows(nr, lo, lo + m, asked(*dto));
            assert forall|b: int| #[trigger] fmt_at(s2, b) == if lo <= b < lo + m { Some(asked(*dto)) } else { fmt_at(s1, b) } by { assert(fmt_at(s2, b) == spliced(s1, lo, lo + m, nr, b)); } }
    }
    paint(t, s, a, ins, asked(*dto), s1, s2);
}
//@ end
/// what is remembered suffices to go back from n to o
pub open spec fn remembers(u: SimpleUndoData, n: Store, o: Store, a: int, ins: Seq<char>) -> bool {
    &&& u.block_id == u.original_block.id && o.texts@.contains_key(u.block_id) && 0 <= a <= o.texts@[u.block_id].len() && blen(o.texts@[u.block_id]) + blen(ins) <= i32::MAX
    &&& n.texts@ == o.texts@.insert(u.block_id, splice(o.texts@[u.block_id], a, a, ins))
    &&& u.original_format_runs@ == runs_of(o.format_runs@, u.block_id) && forall|x: u64| x != u.block_id ==> #[trigger] runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)
    &&& u.inserted_byte_offset == blen(o.texts@[u.block_id].take(a)) && u.inserted_byte_len == blen(ins)
    &&& u.original_character_count == o.count@
}
//@ fn crates/document_editing/src/use_cases/insert_formatted_text_uc.rs execute_insert_simple
//@ from let original_block = $x;
//@ to let undo_data = $x;
//@ rename insert_at
//@ yields Ok((undo_data, text_len))
//@ sig (uow: &mut Store, block: Block, doc_id: EntityId, document: Document, offset: i64, dto: &InsertFormattedTextDto) -> Result<(SimpleUndoData, i64)>
requires ready(*old(uow), block.id), 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX, document.character_count == old(uow).count@, 0 <= old(uow).count@ <= 0x1000_0000_0000_0000,
ensures r is Ok ==> inserted_as(*final(uow), *old(uow), block.id, offset as int, dto.text@, asked(*dto)) && final(uow).count@ == old(uow).count@ + dto.text@.len() && r->Ok_0.1 == dto.text@.len() && remembers(r->Ok_0.0, *final(uow), *old(uow), offset as int, dto.text@) && r->Ok_0.0.block_id == block.id,
//@ ret r
//@ rwstmt let original_format_runs = $x; => let original_format_runs = uow.format_runs.read(block.id);
//@ rwstmt let original_block_images = $x; => let original_block_images = std_no_images();
//@ rwstmt updated_doc.updated_at = $x; =>
//@ rw dto.text.chars().count() => std_char_count(&dto.text)
//@ top
blen_ge(dto.text@);
//@ end
//@ fn crates/document_editing/src/use_cases/insert_formatted_text_uc.rs UndoRedoCommand for InsertFormattedTextUseCase::undo
//@ from uow.update_block(&data.original_block)?;
//@ to uow.update_document(&doc)?;
//@ rename take_back
//@ yields Ok(())
//@ sig (uow: &mut Store, data: &SimpleUndoData, was: Ghost<Store>, a: Ghost<int>, ins: Ghost<Seq<char>>) -> Result<()>
requires remembers(*data, *old(uow), was@, a@, ins@),
ensures r is Ok ==> final(uow).texts@ == was@.texts@ && final(uow).count@ == was@.count@ && forall|x: u64| #[trigger] runs_of(final(uow).format_runs@, x) == runs_of(was@.format_runs@, x),
//@ ret r
//@ rwstmt store.block_images.write().unwrap().insert($a, $b); =>
//@ rwstmt doc.updated_at = $x; =>
//@ rwstmt let mut doc = $x; => let mut doc = std_found(uow.document(&data.doc_id)?)?;
//@ rw store.format_runs.write().unwrap().insert($a, $b) => uow.format_runs.put($a, std_clone_runs(&$b))
//@ rw std_clone_runs(&$x.clone()) => std_clone_runs(&$x)
//@ top
//raw let ghost n = *uow; let ghost o = was@; let ghost id = data.block_id; proof { unsplice(o.texts@[id], a@, ins@); blen_mono(o.texts@[id], a@, a@); assert(blen(ins@) == 0 ==> n.texts@ =~= o.texts@); }
//@ ahead Ok(())
assert(uow.texts@ =~= o.texts@); assert forall|x: u64| #[trigger] runs_of(uow.format_runs@, x) == runs_of(o.format_runs@, x) by { assert(x != id ==> runs_of(n.format_runs@, x) == runs_of(o.format_runs@, x)); }
//@ end
/// inserting and taking it back is nothing
pub fn inserted_and_back(uow: &mut Store, block: Block, doc_id: EntityId, document: Document, offset: i64, dto: &InsertFormattedTextDto) -> (r: Result<()>)
    requires ready(*old(uow), block.id), 0 <= offset <= old(uow).texts@[block.id].len(), blen(old(uow).texts@[block.id]) + blen(dto.text@) <= i32::MAX, document.character_count == old(uow).count@, 0 <= old(uow).count@ <= 0x1000_0000_0000_0000,
    ensures r is Ok ==> final(uow).texts@ == old(uow).texts@ && final(uow).count@ == old(uow).count@ && forall|x: u64| #[trigger] runs_of(final(uow).format_runs@, x) == runs_of(old(uow).format_runs@, x),
{
    let ghost o = *uow;
    let (u, n) = insert_at(uow, block, doc_id, document, offset, dto)?;
    take_back(uow, &u, Ghost(o), Ghost(offset as int), Ghost(dto.text@))
}
}
