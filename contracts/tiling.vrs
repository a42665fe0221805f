// The grid of a table: which place every cell covers before and after rows and columns come and go.
use vstd::prelude::*;
verus! {
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
#[derive(Clone, Copy)]
pub struct TableCell { pub id: u64, pub row: i64, pub column: i64, pub row_span: i64, pub column_span: i64, pub cell_frame: Option<u64>, pub created_at: u64, pub updated_at: u64, pub fmt_padding: Option<i64>, pub fmt_border: Option<i64>, pub fmt_vertical_alignment: Option<u64>, pub fmt_background_color: Option<u64> } // TRUSTED: TableCell, with opaque times and formats
pub struct Asked { pub row_index: i64, pub column_index: i64 } // TRUSTED: the fields of the requests used here
pub open spec fn covers(c: TableCell, r: int, k: int) -> bool { c.row <= r < c.row + c.row_span && c.column <= k < c.column + c.column_span }
pub open spec fn sane(c: TableCell) -> bool { 0 <= c.row <= 0x1000_0000 && 0 <= c.column <= 0x1000_0000 && 1 <= c.row_span <= 0x1000_0000 && 1 <= c.column_span <= 0x1000_0000 }
pub open spec fn all_sane(v: Seq<TableCell>) -> bool { forall|i: int| 0 <= i < v.len() ==> sane(#[trigger] v[i]) }
pub open spec fn filled(v: Seq<TableCell>, r: int, k: int) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] covers(v[i], r, k) }
/// every place of the grid is covered by exactly one cell, and no cell reaches out of it
pub open spec fn tiles(v: Seq<TableCell>, rows: int, columns: int) -> bool {
    &&& forall|r: int, k: int| 0 <= r < rows && 0 <= k < columns ==> #[trigger] filled(v, r, k)
    &&& forall|i: int, j: int, r: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] covers(v[i], r, k) && #[trigger] covers(v[j], r, k) ==> i == j
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).row + v[i].row_span <= rows && v[i].column + v[i].column_span <= columns
}
// ---- a row or a column goes
pub open spec fn in_row(c: TableCell, r: int) -> bool { c.row <= r < c.row + c.row_span }
pub open spec fn in_column(c: TableCell, k: int) -> bool { c.column <= k < c.column + c.column_span }
pub open spec fn without_row(c: TableCell, r: int) -> Option<TableCell> {
    if in_row(c, r) { if c.row_span == 1 { None } else { Some(TableCell { row_span: (c.row_span - 1) as i64, ..c }) } }
    else if c.row > r { Some(TableCell { row: (c.row - 1) as i64, ..c }) } else { Some(c) }
}
pub open spec fn without_column(c: TableCell, k: int) -> Option<TableCell> {
    if in_column(c, k) { if c.column_span == 1 { None } else { Some(TableCell { column_span: (c.column_span - 1) as i64, ..c }) } }
    else if c.column > k { Some(TableCell { column: (c.column - 1) as i64, ..c }) } else { Some(c) }
}
/// the cells of the first n that go
pub open spec fn gone(v: Seq<TableCell>, f: spec_fn(TableCell) -> Option<TableCell>, n: int) -> Seq<TableCell>
    decreases n
{ if n <= 0 { Seq::empty() } else if f(v[n - 1]) is None { gone(v, f, n - 1).push(v[n - 1]) } else { gone(v, f, n - 1) } }
/// the cells of the first n that stay but change, as they are afterwards
pub open spec fn changed(v: Seq<TableCell>, f: spec_fn(TableCell) -> Option<TableCell>, n: int) -> Seq<TableCell>
    decreases n
{ if n <= 0 { Seq::empty() } else if f(v[n - 1]) is Some && f(v[n - 1])->Some_0 != v[n - 1] { changed(v, f, n - 1).push(f(v[n - 1])->Some_0) } else { changed(v, f, n - 1) } }
pub open spec fn kept(v: Seq<TableCell>, f: spec_fn(TableCell) -> Option<TableCell>, n: int) -> Seq<TableCell>
    decreases n
{ if n <= 0 { Seq::empty() } else if f(v[n - 1]) is Some { kept(v, f, n - 1).push(f(v[n - 1])->Some_0) } else { kept(v, f, n - 1) } }
//@ fn crates/document_editing/src/use_cases/remove_table_row_uc.rs execute_remove_table_row
//@ from let mut cells_to_remove: Vec<&TableCell> = $x;
//@ to for cell in &cells { $x }
//@ rename classify_row
//@ yields Ok((cells_to_remove, cells_to_update))
//@ sig (cells: Vec<TableCell>, dto: &Asked) -> Result<(Vec<TableCell>, Vec<TableCell>)>
requires all_sane(cells@), 0 <= dto.row_index <= 0x1000_0000,
ensures r is Ok ==> r->Ok_0.0@ == gone(cells@, |c: TableCell| without_row(c, dto.row_index as int), cells@.len() as int) && r->Ok_0.1@ == changed(cells@, |c: TableCell| without_row(c, dto.row_index as int), cells@.len() as int),
//@ ret r
//@ rwtype Vec<&TableCell> => Vec<TableCell>
//@ rwstmt let all_cell_frame_ids: Vec<EntityId> = $x; =>
//@ rwstmt let base_pos = $x; =>
//@ rwstmt let old_extent = $x; =>
//@ rwstmt updated.updated_at = now; =>
//@ rwstmt shifted.updated_at = now; =>
//@ rw cells_to_remove.push(cell) => cells_to_remove.push(*cell)
//@ top
//raw let ghost f = |c: TableCell| without_row(c, dto.row_index as int);
//@ loop 0 it
invariant
    all_sane(cells@), 0 <= dto.row_index <= 0x1000_0000, f == |c: TableCell| without_row(c, dto.row_index as int),
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    cells_to_remove@ == gone(cells@, f, it.index@ as int), cells_to_update@ == changed(cells@, f, it.index@ as int),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int]));
//@ end
//@ fn crates/document_editing/src/use_cases/remove_table_column_uc.rs execute_remove_table_column
//@ from let mut cells_to_remove: Vec<&TableCell> = $x;
//@ to for cell in &cells { $x }
//@ rename classify_column
//@ yields Ok((cells_to_remove, cells_to_update))
//@ sig (cells: Vec<TableCell>, column_index: i64) -> Result<(Vec<TableCell>, Vec<TableCell>)>
requires all_sane(cells@), 0 <= column_index <= 0x1000_0000,
ensures r is Ok ==> r->Ok_0.0@ == gone(cells@, |c: TableCell| without_column(c, column_index as int), cells@.len() as int) && r->Ok_0.1@ == changed(cells@, |c: TableCell| without_column(c, column_index as int), cells@.len() as int),
//@ ret r
//@ rwtype Vec<&TableCell> => Vec<TableCell>
//@ rwstmt let all_cell_frame_ids: Vec<EntityId> = $x; =>
//@ rwstmt let base_pos = $x; =>
//@ rwstmt let old_extent = $x; =>
//@ rwstmt updated.updated_at = now; =>
//@ rwstmt shifted.updated_at = now; =>
//@ rw cells_to_remove.push(cell) => cells_to_remove.push(*cell)
//@ top
//raw let ghost f = |c: TableCell| without_column(c, column_index as int);
//@ loop 0 it
invariant
    all_sane(cells@), 0 <= column_index <= 0x1000_0000, f == |c: TableCell| without_column(c, column_index as int),
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    cells_to_remove@ == gone(cells@, f, it.index@ as int), cells_to_update@ == changed(cells@, f, it.index@ as int),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int]));
//@ end
/// a kept cell covers what it covered, with the row taken out; a cell that goes covered nothing else
pub proof fn row_out(c: TableCell, x: int, r: int, k: int)
    requires sane(c), 0 <= x, r >= 0
    ensures without_row(c, x) is Some ==> (covers(without_row(c, x)->Some_0, r, k) <==> covers(c, if r < x { r } else { r + 1 }, k)), without_row(c, x) is None ==> (covers(c, r, k) ==> r == x),
{}
pub proof fn column_out(c: TableCell, x: int, r: int, k: int)
    requires sane(c), 0 <= x, k >= 0
    ensures without_column(c, x) is Some ==> (covers(without_column(c, x)->Some_0, r, k) <==> covers(c, r, if k < x { k } else { k + 1 })), without_column(c, x) is None ==> (covers(c, r, k) ==> k == x),
{}
// ---- a row or a column comes
pub open spec fn with_row(c: TableCell, x: int) -> TableCell { if c.row >= x { TableCell { row: (c.row + 1) as i64, ..c } } else if in_row(c, x) { TableCell { row_span: (c.row_span + 1) as i64, ..c } } else { c } }
pub open spec fn with_column(c: TableCell, x: int) -> TableCell { if c.column >= x { TableCell { column: (c.column + 1) as i64, ..c } } else if in_column(c, x) { TableCell { column_span: (c.column_span + 1) as i64, ..c } } else { c } }
//@ fn crates/document_editing/src/use_cases/insert_table_row_uc.rs execute_insert_table_row
//@ from let mut cells_to_update: Vec<TableCell> = $x;
//@ to for cell in &cells { $x }
//@ rename widen_rows
//@ yields Ok(cells_to_update)
//@ sig (cells: Vec<TableCell>, dto: &Asked) -> Result<Vec<TableCell>>
requires all_sane(cells@), 0 <= dto.row_index <= 0x1000_0000,
ensures r is Ok ==> r->Ok_0@ == changed(cells@, |c: TableCell| Some(with_row(c, dto.row_index as int)), cells@.len() as int),
//@ ret r
//@ rwstmt expanded.updated_at = now; =>
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost f = |c: TableCell| Some(with_row(c, dto.row_index as int));
//@ loop 0 it
invariant
    all_sane(cells@), 0 <= dto.row_index <= 0x1000_0000, f == |c: TableCell| Some(with_row(c, dto.row_index as int)),
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    cells_to_update@ == changed(cells@, f, it.index@ as int),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int]));
//@ end
//@ fn crates/document_editing/src/use_cases/insert_table_column_uc.rs execute_insert_table_column
//@ from let mut cells_to_update: Vec<TableCell> = $x;
//@ to for cell in &cells { $x }
//@ rename widen_columns
//@ yields Ok(cells_to_update)
//@ sig (cells: Vec<TableCell>, dto: &Asked) -> Result<Vec<TableCell>>
requires all_sane(cells@), 0 <= dto.column_index <= 0x1000_0000,
ensures r is Ok ==> r->Ok_0@ == changed(cells@, |c: TableCell| Some(with_column(c, dto.column_index as int)), cells@.len() as int),
//@ ret r
//@ rwstmt expanded.updated_at = now; =>
//@ rwstmt shifted.updated_at = now; =>
//@ top
//raw let ghost f = |c: TableCell| Some(with_column(c, dto.column_index as int));
//@ loop 0 it
invariant
    all_sane(cells@), 0 <= dto.column_index <= 0x1000_0000, f == |c: TableCell| Some(with_column(c, dto.column_index as int)),
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    cells_to_update@ == changed(cells@, f, it.index@ as int),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int]));
//@ end
pub proof fn row_in(c: TableCell, x: int, r: int, k: int)
    requires sane(c), 0 <= x, r >= 0
    ensures covers(with_row(c, x), r, k) <==> if r < x { covers(c, r, k) } else if r > x { covers(c, r - 1, k) } else { c.row < x && in_row(c, x) && in_column(c, k) },
{}
pub proof fn column_in(c: TableCell, x: int, r: int, k: int)
    requires sane(c), 0 <= x, k >= 0
    ensures covers(with_column(c, x), r, k) <==> if k < x { covers(c, r, k) } else if k > x { covers(c, r, k - 1) } else { c.column < x && in_column(c, x) && in_row(c, r) },
{}
/// a cell reaches across the new row, or column, at that place
pub open spec fn bridged_row(v: Seq<TableCell>, x: int, k: int) -> bool { exists|i: int| 0 <= i < v.len() && bridges_row(#[trigger] v[i], x, k) }
pub open spec fn bridged_column(v: Seq<TableCell>, x: int, r: int) -> bool { exists|i: int| 0 <= i < v.len() && bridges_column(#[trigger] v[i], x, r) }
pub open spec fn bridges_row(c: TableCell, x: int, k: int) -> bool { c.row < x && in_row(c, x) && in_column(c, k) }
pub open spec fn bridges_column(c: TableCell, x: int, r: int) -> bool { c.column < x && in_column(c, x) && in_row(c, r) }
pub open spec fn open_columns(v: Seq<TableCell>, x: int, n: int) -> Seq<int>
    decreases n
{ if n <= 0 { Seq::empty() } else if bridged_row(v, x, n - 1) { open_columns(v, x, n - 1) } else { open_columns(v, x, n - 1).push(n - 1) } }
pub open spec fn open_rows(v: Seq<TableCell>, x: int, n: int) -> Seq<int>
    decreases n
{ if n <= 0 { Seq::empty() } else if bridged_column(v, x, n - 1) { open_rows(v, x, n - 1) } else { open_rows(v, x, n - 1).push(n - 1) } }
/// new cells of one place each, in the row x, at the columns ks
pub open spec fn in_new_row(v: Seq<TableCell>, x: int, ks: Seq<int>) -> bool { v.len() == ks.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).row == x && v[i].column == ks[i] && v[i].row_span == 1 && v[i].column_span == 1 && v[i].cell_frame is Some }
pub open spec fn in_new_column(v: Seq<TableCell>, x: int, rs: Seq<int>) -> bool { v.len() == rs.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).column == x && v[i].row == rs[i] && v[i].row_span == 1 && v[i].column_span == 1 && v[i].cell_frame is Some }
/// TRUSTED: a unit of work as far as the cells it creates
pub struct Book { pub made: Ghost<Seq<TableCell>> }
#[derive(Clone, Copy)]
pub struct Block { pub id: u64 } // TRUSTED: the fields of Block used here
#[verifier::external_body] // TRUSTED: a new frame with one empty paragraph
pub fn create_cell_frame(uow: &mut Book) -> (r: Result<(EntityId, Block)>) ensures final(uow).made@ == old(uow).made@ { unimplemented!() }
impl Book {
    #[verifier::external_body] // TRUSTED: the cell is added to the table
    pub fn create_table_cell(&mut self, c: &TableCell, table: u64, at: i32) -> (r: Result<TableCell>) ensures r is Ok ==> final(self).made@ == old(self).made@.push(*c) { unimplemented!() }
}
pub struct Table { pub rows: i64, pub columns: i64 } // TRUSTED: the fields of Table used here
pub proof fn one_bridge_row(v: Seq<TableCell>, n: int, x: int, k: int)
    requires 0 <= n < v.len()
    ensures bridged_row(v.take(n + 1), x, k) <==> bridged_row(v.take(n), x, k) || bridges_row(v[n], x, k)
{
    let a = v.take(n); let b = v.take(n + 1);
    assert(b[n] == v[n]);
    if bridged_row(a, x, k) { let i = choose|i: int| 0 <= i < a.len() && bridges_row(#[trigger] a[i], x, k); assert(b[i] == a[i]); }
    if bridged_row(b, x, k) && !bridges_row(v[n], x, k) { let i = choose|i: int| 0 <= i < b.len() && bridges_row(#[trigger] b[i], x, k); assert(a[i] == b[i]); }
}
pub proof fn one_bridge_column(v: Seq<TableCell>, n: int, x: int, k: int)
    requires 0 <= n < v.len()
    ensures bridged_column(v.take(n + 1), x, k) <==> bridged_column(v.take(n), x, k) || bridges_column(v[n], x, k)
{
    let a = v.take(n); let b = v.take(n + 1);
    assert(b[n] == v[n]);
    if bridged_column(a, x, k) { let i = choose|i: int| 0 <= i < a.len() && bridges_column(#[trigger] a[i], x, k); assert(b[i] == a[i]); }
    if bridged_column(b, x, k) && !bridges_column(v[n], x, k) { let i = choose|i: int| 0 <= i < b.len() && bridges_column(#[trigger] b[i], x, k); assert(a[i] == b[i]); }
}
//@ fn crates/document_editing/src/use_cases/insert_table_row_uc.rs execute_insert_table_row
//@ from let mut new_cell_blocks: Vec<Block> = $x;
//@ to for c in 0..table.columns { $x }
//@ rename fill_row
//@ yields Ok(new_cell_blocks.len())
//@ sig (uow: &mut Book, cells: Vec<TableCell>, dto: &Asked, table: &Table, table_id: u64, now: u64) -> Result<usize>
requires all_sane(cells@), 0 <= dto.row_index <= 0x1000_0000, 0 <= table.columns <= 0x1000_0000,
ensures
    r is Ok ==> final(uow).made@.len() >= old(uow).made@.len() && final(uow).made@.take(old(uow).made@.len() as int) == old(uow).made@
        && in_new_row(final(uow).made@.skip(old(uow).made@.len() as int), dto.row_index as int, open_columns(cells@, dto.row_index as int, table.columns as int)),
    r is Ok ==> r->Ok_0 == open_columns(cells@, dto.row_index as int, table.columns as int).len(),
//@ ret r
//@ rw create_cell_frame(&mut *uow, doc_id, now) => create_cell_frame(uow)
//@ rw Vec::with_capacity($x) => Vec::new()
//@ rw cells.iter().any(|$v| { $cond }) => { let mut hit = false; for $v in &cells { if $cond { hit = true; } } hit }
//@ top
//raw let ghost o = uow.made@; let ghost w = dto.row_index as int;
//@ loop 0
invariant
    all_sane(cells@), 0 <= w <= 0x1000_0000, w == dto.row_index, 0 <= table.columns <= 0x1000_0000,
    uow.made@.len() == o.len() + open_columns(cells@, w, c as int).len(), uow.made@.take(o.len() as int) =~= o,
    in_new_row(uow.made@.skip(o.len() as int), w, open_columns(cells@, w, c as int)), new_cell_blocks@.len() == open_columns(cells@, w, c as int).len(),
//@ loop 0 top
//raw let ghost pre = uow.made@;
//@ loop 0 bottom
assert(open_columns(cells@, w, c as int + 1) == if bridged_row(cells@, w, c as int) { open_columns(cells@, w, c as int) } else { open_columns(cells@, w, c as int).push(c as int) });
if !bridged_row(cells@, w, c as int) {
    let a = pre.skip(o.len() as int); let b = uow.made@.skip(o.len() as int);
    assert(b =~= a.push(uow.made@.last()));
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).row == w && b[i].column == open_columns(cells@, w, c as int + 1)[i] && b[i].row_span == 1 && b[i].column_span == 1 && b[i].cell_frame is Some by { if i < a.len() { assert(b[i] == a[i]); } }
}
//@ loop 1 it
invariant
    all_sane(cells@), 0 <= c < table.columns <= 0x1000_0000,
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    hit <==> bridged_row(cells@.take(it.index@ as int), dto.row_index as int, c as int),
//@ loop 1 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int])); one_bridge_row(cells@, it.index@ as int, dto.row_index as int, c as int);
//@ loop 1 after
assert(cells@.take(cells@.len() as int) =~= cells@);
//@ end
//@ fn crates/document_editing/src/use_cases/insert_table_column_uc.rs execute_insert_table_column
//@ from let mut new_cell_blocks: Vec<Block> = $x;
//@ to for r in 0..table.rows { $x }
//@ rename fill_column
//@ yields Ok(new_cell_blocks.len())
//@ sig (uow: &mut Book, cells: Vec<TableCell>, dto: &Asked, table: &Table, table_id: u64, now: u64) -> Result<usize>
requires all_sane(cells@), 0 <= dto.column_index <= 0x1000_0000, 0 <= table.rows <= 0x1000_0000,
ensures
    r is Ok ==> final(uow).made@.len() >= old(uow).made@.len() && final(uow).made@.take(old(uow).made@.len() as int) == old(uow).made@
        && in_new_column(final(uow).made@.skip(old(uow).made@.len() as int), dto.column_index as int, open_rows(cells@, dto.column_index as int, table.rows as int)),
    r is Ok ==> r->Ok_0 == open_rows(cells@, dto.column_index as int, table.rows as int).len(),
//@ ret r
//@ rw create_cell_frame(&mut *uow, doc_id, now) => create_cell_frame(uow)
//@ rw Vec::with_capacity($x) => Vec::new()
//@ rw cells.iter().any(|$v| { $cond }) => { let mut hit = false; for $v in &cells { if $cond { hit = true; } } hit }
//@ top
//raw let ghost o = uow.made@; let ghost w = dto.column_index as int;
//@ loop 0
invariant
    all_sane(cells@), 0 <= w <= 0x1000_0000, w == dto.column_index, 0 <= table.rows <= 0x1000_0000,
    uow.made@.len() == o.len() + open_rows(cells@, w, r as int).len(), uow.made@.take(o.len() as int) =~= o,
    in_new_column(uow.made@.skip(o.len() as int), w, open_rows(cells@, w, r as int)), new_cell_blocks@.len() == open_rows(cells@, w, r as int).len(),
//@ loop 0 top
//raw let ghost pre = uow.made@;
//@ loop 0 bottom
assert(open_rows(cells@, w, r as int + 1) == if bridged_column(cells@, w, r as int) { open_rows(cells@, w, r as int) } else { open_rows(cells@, w, r as int).push(r as int) });
if !bridged_column(cells@, w, r as int) {
    let a = pre.skip(o.len() as int); let b = uow.made@.skip(o.len() as int);
    assert(b =~= a.push(uow.made@.last()));
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).column == w && b[i].row == open_rows(cells@, w, r as int + 1)[i] && b[i].row_span == 1 && b[i].column_span == 1 && b[i].cell_frame is Some by { if i < a.len() { assert(b[i] == a[i]); } }
}
//@ loop 1 it
invariant
    all_sane(cells@), 0 <= r < table.rows <= 0x1000_0000,
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    hit <==> bridged_column(cells@.take(it.index@ as int), dto.column_index as int, r as int),
//@ loop 1 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int])); one_bridge_column(cells@, it.index@ as int, dto.column_index as int, r as int);
//@ loop 1 after
assert(cells@.take(cells@.len() as int) =~= cells@);
//@ end
// ---- the grid stays tiled
pub open spec fn source(v: Seq<TableCell>, f: spec_fn(TableCell) -> Option<TableCell>, n: int) -> Seq<int>
    decreases n
{ if n <= 0 { Seq::empty() } else if f(v[n - 1]) is Some { source(v, f, n - 1).push(n - 1) } else { source(v, f, n - 1) } }
pub open spec fn drawn(v: Seq<TableCell>, f: spec_fn(TableCell) -> Option<TableCell>, n: int) -> bool {
    let w = kept(v, f, n); let q = source(v, f, n);
    &&& w.len() == q.len()
    &&& forall|j: int| 0 <= j < w.len() ==> 0 <= #[trigger] q[j] < n && f(v[q[j]]) is Some && w[j] == f(v[q[j]])->Some_0
    &&& forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && #[trigger] q[a] == #[trigger] q[b] ==> a == b
    &&& forall|i: int| 0 <= i < n && f(v[i]) is Some ==> #[trigger] drawn_at(q, i)
}
pub open spec fn drawn_at(q: Seq<int>, i: int) -> bool { exists|j: int| 0 <= j < q.len() && #[trigger] q[j] == i }
pub proof fn draws(v: Seq<TableCell>, f: spec_fn(TableCell) -> Option<TableCell>, n: int)
    requires 0 <= n <= v.len()
    ensures drawn(v, f, n)
    decreases n
{
    if n > 0 {
        draws(v, f, n - 1);
        let q0 = source(v, f, n - 1); let q = source(v, f, n);
        assert forall|i: int| 0 <= i < n && f(v[i]) is Some implies #[trigger] drawn_at(q, i) by {
            if i == n - 1 { assert(q[q.len() - 1] == i); } else { assert(drawn_at(q0, i)); let j = choose|j: int| 0 <= j < q0.len() && #[trigger] q0[j] == i; assert(q[j] == i); }
        }
        assert forall|j: int| 0 <= j < q.len() implies 0 <= #[trigger] q[j] < n && f(v[q[j]]) is Some && kept(v, f, n)[j] == f(v[q[j]])->Some_0 by { if j < q0.len() { assert(q[j] == q0[j]); } }
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && #[trigger] q[a] == #[trigger] q[b] implies a == b by { if a < q0.len() { assert(q[a] == q0[a]); } if b < q0.len() { assert(q[b] == q0[b]); } }
    }
}
/// taking a row out of a tiled grid leaves a tiled grid
pub proof fn row_taken(v: Seq<TableCell>, x: int, rows: int, columns: int)
    requires tiles(v, rows, columns), all_sane(v), 0 <= x < rows
    ensures tiles(kept(v, |c: TableCell| without_row(c, x), v.len() as int), rows - 1, columns)
{
    let f = |c: TableCell| without_row(c, x); let n = v.len() as int; let w = kept(v, f, n); let q = source(v, f, n);
    draws(v, f, n);
    assert forall|r: int, k: int| 0 <= r < rows - 1 && 0 <= k < columns implies #[trigger] filled(w, r, k) by {
        let s = if r < x { r } else { r + 1 };
        assert(filled(v, s, k));
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] covers(v[i], s, k);
        assert(sane(v[i])); row_out(v[i], x, r, k); row_out(v[i], x, s, k);
        assert(f(v[i]) is Some); assert(drawn_at(q, i));
        let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == i;
        assert(covers(w[j], r, k));
    }
    assert forall|i: int, j: int, r: int, k: int| 0 <= i < w.len() && 0 <= j < w.len() && #[trigger] covers(w[i], r, k) && #[trigger] covers(w[j], r, k) implies i == j by {
        let a = q[i]; let b = q[j]; assert(sane(v[a]) && sane(v[b]));
        let s = if r < x { r } else { r + 1 };
        row_out(v[a], x, r, k); row_out(v[b], x, r, k);
        assert(covers(v[a], s, k) && covers(v[b], s, k));
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).row + w[i].row_span <= rows - 1 && w[i].column + w[i].column_span <= columns by { let a = q[i]; assert(sane(v[a])); assert(v[a].row + v[a].row_span <= rows); }
}
pub proof fn column_taken(v: Seq<TableCell>, x: int, rows: int, columns: int)
    requires tiles(v, rows, columns), all_sane(v), 0 <= x < columns
    ensures tiles(kept(v, |c: TableCell| without_column(c, x), v.len() as int), rows, columns - 1)
{
    let f = |c: TableCell| without_column(c, x); let n = v.len() as int; let w = kept(v, f, n); let q = source(v, f, n);
    draws(v, f, n);
    assert forall|r: int, k: int| 0 <= r < rows && 0 <= k < columns - 1 implies #[trigger] filled(w, r, k) by {
        let s = if k < x { k } else { k + 1 };
        assert(filled(v, r, s));
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] covers(v[i], r, s);
        assert(sane(v[i])); column_out(v[i], x, r, k); column_out(v[i], x, r, s);
        assert(f(v[i]) is Some); assert(drawn_at(q, i));
        let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == i;
        assert(covers(w[j], r, k));
    }
    assert forall|i: int, j: int, r: int, k: int| 0 <= i < w.len() && 0 <= j < w.len() && #[trigger] covers(w[i], r, k) && #[trigger] covers(w[j], r, k) implies i == j by {
        let a = q[i]; let b = q[j]; assert(sane(v[a]) && sane(v[b]));
        let s = if k < x { k } else { k + 1 };
        column_out(v[a], x, r, k); column_out(v[b], x, r, k);
        assert(covers(v[a], r, s) && covers(v[b], r, s));
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).row + w[i].row_span <= rows && w[i].column + w[i].column_span <= columns - 1 by { let a = q[i]; assert(sane(v[a])); assert(v[a].row + v[a].row_span <= rows); }
}
pub proof fn opened_columns(v: Seq<TableCell>, x: int, n: int)
    ensures ({ let q = open_columns(v, x, n); (forall|j: int| 0 <= j < q.len() ==> 0 <= #[trigger] q[j] < n && !bridged_row(v, x, q[j])) && (forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && #[trigger] q[a] == #[trigger] q[b] ==> a == b) && (forall|k: int| 0 <= k < n && !bridged_row(v, x, k) ==> #[trigger] drawn_at(q, k)) })
    decreases n
{
    if n > 0 {
        opened_columns(v, x, n - 1);
        let q0 = open_columns(v, x, n - 1); let q = open_columns(v, x, n);
        assert forall|k: int| 0 <= k < n && !bridged_row(v, x, k) implies #[trigger] drawn_at(q, k) by { if k == n - 1 { assert(q[q.len() - 1] == k); } else { assert(drawn_at(q0, k)); let j = choose|j: int| 0 <= j < q0.len() && #[trigger] q0[j] == k; assert(q[j] == k); } }
        assert forall|j: int| 0 <= j < q.len() implies 0 <= #[trigger] q[j] < n && !bridged_row(v, x, q[j]) by { if j < q0.len() { assert(q[j] == q0[j]); } }
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && #[trigger] q[a] == #[trigger] q[b] implies a == b by { if a < q0.len() { assert(q[a] == q0[a]); } if b < q0.len() { assert(q[b] == q0[b]); } }
    }
}
pub proof fn opened_rows(v: Seq<TableCell>, x: int, n: int)
    ensures ({ let q = open_rows(v, x, n); (forall|j: int| 0 <= j < q.len() ==> 0 <= #[trigger] q[j] < n && !bridged_column(v, x, q[j])) && (forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && #[trigger] q[a] == #[trigger] q[b] ==> a == b) && (forall|k: int| 0 <= k < n && !bridged_column(v, x, k) ==> #[trigger] drawn_at(q, k)) })
    decreases n
{
    if n > 0 {
        opened_rows(v, x, n - 1);
        let q0 = open_rows(v, x, n - 1); let q = open_rows(v, x, n);
        assert forall|k: int| 0 <= k < n && !bridged_column(v, x, k) implies #[trigger] drawn_at(q, k) by { if k == n - 1 { assert(q[q.len() - 1] == k); } else { assert(drawn_at(q0, k)); let j = choose|j: int| 0 <= j < q0.len() && #[trigger] q0[j] == k; assert(q[j] == k); } }
        assert forall|j: int| 0 <= j < q.len() implies 0 <= #[trigger] q[j] < n && !bridged_column(v, x, q[j]) by { if j < q0.len() { assert(q[j] == q0[j]); } }
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < q.len() && #[trigger] q[a] == #[trigger] q[b] implies a == b by { if a < q0.len() { assert(q[a] == q0[a]); } if b < q0.len() { assert(q[b] == q0[b]); } }
    }
}
/// the changed cells with the new ones tile the grid with the row put in
pub proof fn row_put(v: Seq<TableCell>, fresh: Seq<TableCell>, x: int, rows: int, columns: int)
    requires tiles(v, rows, columns), all_sane(v), 0 <= x <= rows, in_new_row(fresh, x, open_columns(v, x, columns)),
    ensures tiles(v.map_values(|c: TableCell| with_row(c, x)) + fresh, rows + 1, columns)
{
    let m = v.map_values(|c: TableCell| with_row(c, x)); let w = m + fresh; let q = open_columns(v, x, columns);
    opened_columns(v, x, columns);
    assert forall|r: int, k: int| 0 <= r < rows + 1 && 0 <= k < columns implies #[trigger] filled(w, r, k) by {
        if r == x {
            if bridged_row(v, x, k) { let i = choose|i: int| 0 <= i < v.len() && bridges_row(#[trigger] v[i], x, k); assert(sane(v[i])); row_in(v[i], x, r, k); assert(w[i] == with_row(v[i], x)); assert(covers(w[i], r, k)); }
            else { assert(drawn_at(q, k)); let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == k; assert(w[v.len() + j] == fresh[j]); assert(covers(w[v.len() + j], r, k)); }
        } else {
            let s = if r < x { r } else { r - 1 };
            assert(filled(v, s, k));
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] covers(v[i], s, k);
            assert(sane(v[i])); row_in(v[i], x, r, k); assert(w[i] == with_row(v[i], x)); assert(covers(w[i], r, k));
        }
    }
    assert forall|i: int, j: int, r: int, k: int| 0 <= i < w.len() && 0 <= j < w.len() && #[trigger] covers(w[i], r, k) && #[trigger] covers(w[j], r, k) implies i == j by {
        let n = v.len() as int;
        if i < n { assert(sane(v[i])); row_in(v[i], x, r, k); assert(w[i] == with_row(v[i], x)); } else { assert(w[i] == fresh[i - n]); assert(r == x && k == q[i - n]); }
        if j < n { assert(sane(v[j])); row_in(v[j], x, r, k); assert(w[j] == with_row(v[j], x)); } else { assert(w[j] == fresh[j - n]); assert(r == x && k == q[j - n]); }
        if i < n && j < n {
            let s = if r < x { r } else { r - 1 };
            if r != x { assert(covers(v[i], s, k) && covers(v[j], s, k)); } else { assert(covers(v[i], x - 1, k) && covers(v[j], x - 1, k)); }
        } else if i < n { assert(bridges_row(v[i], x, k)); assert(bridged_row(v, x, k)); } else if j < n { assert(bridges_row(v[j], x, k)); assert(bridged_row(v, x, k)); }
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).row + w[i].row_span <= rows + 1 && w[i].column + w[i].column_span <= columns by {
        if i < v.len() { assert(sane(v[i])); assert(w[i] == with_row(v[i], x)); assert(v[i].row + v[i].row_span <= rows); } else { assert(w[i] == fresh[i - v.len()]); assert(0 <= q[i - v.len()] < columns); }
    }
}
pub proof fn column_put(v: Seq<TableCell>, fresh: Seq<TableCell>, x: int, rows: int, columns: int)
    requires tiles(v, rows, columns), all_sane(v), 0 <= x <= columns, in_new_column(fresh, x, open_rows(v, x, rows)),
    ensures tiles(v.map_values(|c: TableCell| with_column(c, x)) + fresh, rows, columns + 1)
{
    let m = v.map_values(|c: TableCell| with_column(c, x)); let w = m + fresh; let q = open_rows(v, x, rows);
    opened_rows(v, x, rows);
    assert forall|r: int, k: int| 0 <= r < rows && 0 <= k < columns + 1 implies #[trigger] filled(w, r, k) by {
        if k == x {
            if bridged_column(v, x, r) { let i = choose|i: int| 0 <= i < v.len() && bridges_column(#[trigger] v[i], x, r); assert(sane(v[i])); column_in(v[i], x, r, k); assert(w[i] == with_column(v[i], x)); assert(covers(w[i], r, k)); }
            else { assert(drawn_at(q, r)); let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == r; assert(w[v.len() + j] == fresh[j]); assert(covers(w[v.len() + j], r, k)); }
        } else {
            let s = if k < x { k } else { k - 1 };
            assert(filled(v, r, s));
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] covers(v[i], r, s);
            assert(sane(v[i])); column_in(v[i], x, r, k); assert(w[i] == with_column(v[i], x)); assert(covers(w[i], r, k));
        }
    }
    assert forall|i: int, j: int, r: int, k: int| 0 <= i < w.len() && 0 <= j < w.len() && #[trigger] covers(w[i], r, k) && #[trigger] covers(w[j], r, k) implies i == j by {
        let n = v.len() as int;
        if i < n { assert(sane(v[i])); column_in(v[i], x, r, k); assert(w[i] == with_column(v[i], x)); } else { assert(w[i] == fresh[i - n]); assert(k == x && r == q[i - n]); }
        if j < n { assert(sane(v[j])); column_in(v[j], x, r, k); assert(w[j] == with_column(v[j], x)); } else { assert(w[j] == fresh[j - n]); assert(k == x && r == q[j - n]); }
        if i < n && j < n {
            let s = if k < x { k } else { k - 1 };
            if k != x { assert(covers(v[i], r, s) && covers(v[j], r, s)); } else { assert(covers(v[i], r, x - 1) && covers(v[j], r, x - 1)); }
        } else if i < n { assert(bridges_column(v[i], x, r)); assert(bridged_column(v, x, r)); } else if j < n { assert(bridges_column(v[j], x, r)); assert(bridged_column(v, x, r)); }
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).row + w[i].row_span <= rows && w[i].column + w[i].column_span <= columns + 1 by {
        if i < v.len() { assert(sane(v[i])); assert(w[i] == with_column(v[i], x)); assert(v[i].row + v[i].row_span <= rows); } else { assert(w[i] == fresh[i - v.len()]); assert(0 <= q[i - v.len()] < rows); }
    }
}
// ---- a cell is split
pub struct Split { pub split_rows: i64, pub split_columns: i64 } // TRUSTED: the fields of the request used here
/// where the i-th of the parts begins: the first `more` parts are one longer than the others
pub open spec fn cut(from: int, each: int, more: int, i: int) -> int
    decreases i
{ if i <= 0 { from } else { cut(from, each, more, i - 1) + each + if i - 1 < more { 1int } else { 0 } } }
pub open spec fn part(c: TableCell, d: Split, i: int, j: int) -> (int, int, int, int) {
    let er = c.row_span as int / d.split_rows as int; let mr = c.row_span as int % d.split_rows as int;
    let ec = c.column_span as int / d.split_columns as int; let mc = c.column_span as int % d.split_columns as int;
    (cut(c.row as int, er, mr, i), cut(c.column as int, ec, mc, j), cut(c.row as int, er, mr, i + 1) - cut(c.row as int, er, mr, i), cut(c.column as int, ec, mc, j + 1) - cut(c.column as int, ec, mc, j))
}
pub open spec fn same_part(t: (i64, i64, i64, i64), p: (int, int, int, int)) -> bool { t.0 == p.0 && t.1 == p.1 && t.2 == p.2 && t.3 == p.3 }
/// the parts row by row
pub open spec fn parts(v: Seq<(i64, i64, i64, i64)>, c: TableCell, d: Split, n: int) -> bool {
    v.len() == n && forall|m: int| 0 <= m < n ==> same_part(#[trigger] v[m], part(c, d, m / d.split_columns as int, m % d.split_columns as int))
}
pub proof fn cut_closed(from: int, each: int, more: int, i: int)
    requires 0 <= i, 0 <= more
    ensures cut(from, each, more, i) == from + each * i + if i < more { i } else { more }
    decreases i
{ if i > 0 { cut_closed(from, each, more, i - 1); assert(each * i == each * (i - 1) + each) by (nonlinear_arith); } else { assert(each * i == 0) by (nonlinear_arith) requires i == 0; } }
pub proof fn cuts_rise(from: int, each: int, more: int, i: int, j: int)
    requires 0 <= i <= j, each >= 1
    ensures cut(from, each, more, i) + (j - i) <= cut(from, each, more, j)
    decreases j - i
{ if i < j { cuts_rise(from, each, more, i, j - 1); } }
/// the parts end where the whole does
pub proof fn cuts_end(from: int, span: int, n: int)
    requires 1 <= n <= span
    ensures cut(from, span / n, span % n, n) == from + span, span / n >= 1, cut(from, span / n, span % n, 0) == from
{
    cut_closed(from, span / n, span % n, n);
    assert(span == n * (span / n) + span % n && 0 <= span % n < n && span / n >= 1) by (nonlinear_arith) requires 1 <= n <= span;
    assert((span / n) * n == n * (span / n)) by (nonlinear_arith);
}
pub proof fn part_at(i: int, j: int, n: int)
    requires 0 <= j < n, 0 <= i
    ensures (i * n + j) / n == i, (i * n + j) % n == j
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j); }
//@ fn crates/document_editing/src/use_cases/split_table_cell_uc.rs execute_split_table_cell
//@ from let base_row_span = $x;
//@ to for ri in 0..dto.split_rows { $x }
//@ rename split_up
//@ yields Ok(sub_cells)
//@ sig (cell: TableCell, dto: &Split) -> Result<Vec<(i64, i64, i64, i64)>>
requires sane(cell), 1 <= dto.split_rows <= cell.row_span, 1 <= dto.split_columns <= cell.column_span,
ensures r is Ok ==> parts(r->Ok_0@, cell, *dto, dto.split_rows * dto.split_columns),
//@ ret r
//@ top
cuts_end(cell.row as int, cell.row_span as int, dto.split_rows as int); cuts_end(cell.column as int, cell.column_span as int, dto.split_columns as int);
//@ loop 0
invariant
    sane(cell), 1 <= dto.split_rows <= cell.row_span, 1 <= dto.split_columns <= cell.column_span,
    base_row_span == cell.row_span as int / dto.split_rows as int, extra_rows == cell.row_span as int % dto.split_rows as int, base_col_span == cell.column_span as int / dto.split_columns as int, extra_cols == cell.column_span as int % dto.split_columns as int,
    1 <= base_row_span, 1 <= base_col_span,
    cut(cell.row as int, base_row_span as int, extra_rows as int, dto.split_rows as int) == cell.row + cell.row_span,
    cut(cell.column as int, base_col_span as int, extra_cols as int, dto.split_columns as int) == cell.column + cell.column_span,
    current_row == cut(cell.row as int, base_row_span as int, extra_rows as int, ri as int),
    parts(sub_cells@, cell, *dto, ri * dto.split_columns),
//@ loop 0 top
cuts_rise(cell.row as int, base_row_span as int, extra_rows as int, ri as int + 1, dto.split_rows as int); cuts_rise(cell.row as int, base_row_span as int, extra_rows as int, 0, ri as int);
assert(cut(cell.row as int, base_row_span as int, extra_rows as int, ri as int + 1) == current_row + base_row_span + if ri < extra_rows { 1int } else { 0 });
//@ loop 0 bottom
assert((ri + 1) * dto.split_columns == ri * dto.split_columns + dto.split_columns) by (nonlinear_arith);
//@ loop 1
invariant
    sane(cell), 1 <= dto.split_rows <= cell.row_span, 1 <= dto.split_columns <= cell.column_span, 0 <= ri < dto.split_rows,
    base_row_span == cell.row_span as int / dto.split_rows as int, extra_rows == cell.row_span as int % dto.split_rows as int, base_col_span == cell.column_span as int / dto.split_columns as int, extra_cols == cell.column_span as int % dto.split_columns as int,
    1 <= base_row_span, 1 <= base_col_span,
    cut(cell.column as int, base_col_span as int, extra_cols as int, dto.split_columns as int) == cell.column + cell.column_span,
    current_row == cut(cell.row as int, base_row_span as int, extra_rows as int, ri as int), rs == cut(cell.row as int, base_row_span as int, extra_rows as int, ri as int + 1) - current_row,
    current_col == cut(cell.column as int, base_col_span as int, extra_cols as int, ci as int),
    parts(sub_cells@, cell, *dto, ri * dto.split_columns + ci),
//@ loop 1 top
cuts_rise(cell.column as int, base_col_span as int, extra_cols as int, ci as int + 1, dto.split_columns as int); cuts_rise(cell.column as int, base_col_span as int, extra_cols as int, 0, ci as int);
assert(cut(cell.column as int, base_col_span as int, extra_cols as int, ci as int + 1) == current_col + base_col_span + if ci < extra_cols { 1int } else { 0 });
part_at(ri as int, ci as int, dto.split_columns as int);
//@ end
/// the parts tile the cell: each lies in it, and every place of it lies in exactly one of them
pub proof fn parts_tile(v: Seq<(i64, i64, i64, i64)>, c: TableCell, d: Split)
    requires sane(c), 1 <= d.split_rows <= c.row_span, 1 <= d.split_columns <= c.column_span, parts(v, c, d, d.split_rows * d.split_columns)
    ensures
        forall|r: int, k: int| #[trigger] covers(c, r, k) ==> exists|m: int| 0 <= m < v.len() && #[trigger] within(v[m], r, k),
        forall|m: int, r: int, k: int| 0 <= m < v.len() && #[trigger] within(v[m], r, k) ==> covers(c, r, k),
        forall|a: int, b: int, r: int, k: int| 0 <= a < v.len() && 0 <= b < v.len() && #[trigger] within(v[a], r, k) && #[trigger] within(v[b], r, k) ==> a == b,
{
    let er = c.row_span as int / d.split_rows as int; let mr = c.row_span as int % d.split_rows as int; let ec = c.column_span as int / d.split_columns as int; let mc = c.column_span as int % d.split_columns as int;
    let n = d.split_columns as int; let t = d.split_rows as int;
    cuts_end(c.row as int, c.row_span as int, t); cuts_end(c.column as int, c.column_span as int, n);
    assert forall|r: int, k: int| #[trigger] covers(c, r, k) implies exists|m: int| 0 <= m < v.len() && #[trigger] within(v[m], r, k) by {
        let i = find_cut(c.row as int, er, mr, t, r); let j = find_cut(c.column as int, ec, mc, n, k);
        part_at(i, j, n);
        assert(0 <= i * n + j < t * n) by (nonlinear_arith) requires 0 <= i < t, 0 <= j < n;
        assert(same_part(v[i * n + j], part(c, d, i, j)));
        assert(within(v[i * n + j], r, k));
    }
    assert forall|m: int, r: int, k: int| 0 <= m < v.len() && #[trigger] within(v[m], r, k) implies covers(c, r, k) by {
        let (i, j) = split_index(m, n, t);
        assert(same_part(v[m], part(c, d, i, j)));
        cuts_rise(c.row as int, er, mr, 0, i); cuts_rise(c.row as int, er, mr, i + 1, t); cuts_rise(c.column as int, ec, mc, 0, j); cuts_rise(c.column as int, ec, mc, j + 1, n);
    }
    assert forall|a: int, b: int, r: int, k: int| 0 <= a < v.len() && 0 <= b < v.len() && #[trigger] within(v[a], r, k) && #[trigger] within(v[b], r, k) implies a == b by {
        let (i, j) = split_index(a, n, t); let (x, y) = split_index(b, n, t);
        assert(same_part(v[a], part(c, d, i, j)) && same_part(v[b], part(c, d, x, y)));
        if i < x { cuts_rise(c.row as int, er, mr, i + 1, x); } else if x < i { cuts_rise(c.row as int, er, mr, x + 1, i); }
        if j < y { cuts_rise(c.column as int, ec, mc, j + 1, y); } else if y < j { cuts_rise(c.column as int, ec, mc, y + 1, j); }
        assert(i == x && j == y);
    }
}
pub open spec fn within(t: (i64, i64, i64, i64), r: int, k: int) -> bool { t.0 <= r < t.0 + t.2 && t.1 <= k < t.1 + t.3 }
pub proof fn split_index(m: int, n: int, t: int) -> (r: (int, int))
    requires 1 <= n, 0 <= m < t * n
    ensures r.0 == m / n, r.1 == m % n, 0 <= r.0 < t, 0 <= r.1 < n, m == r.0 * n + r.1
{
    assert(m == (m / n) * n + m % n && 0 <= m % n < n && 0 <= m / n < t) by (nonlinear_arith) requires 1 <= n, 0 <= m < t * n;
    (m / n, m % n)
}
pub proof fn find_cut(from: int, each: int, more: int, n: int, p: int) -> (i: int)
    requires from <= p < cut(from, each, more, n), 0 <= n
    ensures 0 <= i < n, cut(from, each, more, i) <= p < cut(from, each, more, i + 1)
    decreases n
{ if cut(from, each, more, n - 1) <= p { n - 1 } else { find_cut(from, each, more, n - 1, p) } }
// ---- cells are merged
pub struct Range { pub start_row: i64, pub start_column: i64, pub end_row: i64, pub end_column: i64 } // TRUSTED: the fields of the request used here
pub open spec fn met(c: TableCell, d: Range) -> bool { c.row + c.row_span > d.start_row && c.row <= d.end_row && c.column + c.column_span > d.start_column && c.column <= d.end_column }
/// the cells of v that p picks, in order
pub open spec fn picked(v: Seq<TableCell>, p: spec_fn(TableCell) -> bool, n: int) -> Seq<TableCell>
    decreases n
{ if n <= 0 { Seq::empty() } else if p(v[n - 1]) { picked(v, p, n - 1).push(v[n - 1]) } else { picked(v, p, n - 1) } }
pub proof fn picked_only(v: Seq<TableCell>, p: spec_fn(TableCell) -> bool, n: int)
    requires 0 <= n <= v.len()
    ensures
        forall|j: int| 0 <= j < picked(v, p, n).len() ==> p(#[trigger] picked(v, p, n)[j]) && v.contains(picked(v, p, n)[j]),
        forall|i: int| 0 <= i < n && p(#[trigger] v[i]) ==> picked(v, p, n).contains(v[i]),
    decreases n
{
    if n > 0 {
        picked_only(v, p, n - 1);
        let a = picked(v, p, n - 1); let b = picked(v, p, n);
        assert forall|i: int| 0 <= i < n && p(#[trigger] v[i]) implies b.contains(v[i]) by { if i == n - 1 { assert(b[b.len() - 1] == v[i]); } else { assert(a.contains(v[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == v[i]; assert(b[j] == v[i]); } }
        assert forall|j: int| 0 <= j < b.len() implies p(#[trigger] b[j]) && v.contains(b[j]) by { if j < a.len() { assert(b[j] == a[j]); } else { assert(b[j] == v[n - 1]); } }
    }
}
pub fn std_some<T>(o: Option<T>) -> (r: Result<T>) ensures match o { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { match o { Some(x) => Ok(x), None => Err(Error {}) } }
/// what a merge keeps and takes away
pub open spec fn merges(v: Seq<TableCell>, d: Range, s: TableCell, away: Seq<TableCell>) -> bool {
    &&& v.contains(s) && met(s, d) && s.row == d.start_row && s.column == d.start_column
    &&& forall|i: int| 0 <= i < v.len() && met(#[trigger] v[i], d) ==> v[i].row_span <= 1 && v[i].column_span <= 1
    &&& forall|i: int| 0 <= i < v.len() ==> (away.contains(#[trigger] v[i]) <==> met(v[i], d) && v[i].id != s.id)
    &&& forall|j: int| 0 <= j < away.len() ==> v.contains(#[trigger] away[j])
}
//@ fn crates/document_editing/src/use_cases/merge_table_cells_uc.rs execute_merge_table_cells
//@ from let cells_in_range: Vec<&TableCell> = $x;
//@ to let cells_to_remove: Vec<&TableCell> = $x;
//@ rename choose_cells
//@ yields Ok((surviving_cell, cells_to_remove))
//@ sig (cells: Vec<TableCell>, dto: &Range) -> Result<(TableCell, Vec<TableCell>)>
requires all_sane(cells@), 0 <= dto.start_row <= dto.end_row, 0 <= dto.start_column <= dto.end_column,
ensures
    r is Ok ==> merges(cells@, *dto, r->Ok_0.0, r->Ok_0.1@),
//@ ret r
//@ rwtype Vec<&TableCell> => Vec<TableCell>
//@ rwstmt let snapshot = $x; =>
//@ rw cells.iter().filter(|$v| { $cond }).collect() => { let mut some: Vec<TableCell> = Vec::new(); for $v in &cells { if $cond { some.push(*$v); } } some }
//@ rw return Err(anyhow!($x)) => return Err(Error {})
//@ rw cells_in_range.iter().find(|$v| $cond).ok_or_else($e)? => std_some({ let mut hit: Option<TableCell> = None; for $v in &cells_in_range { if hit.is_none() && ($cond) { hit = Some(*$v); } } hit })?
//@ rw cells_in_range.iter().filter(|$v| $cond).copied().collect() => { let mut some: Vec<TableCell> = Vec::new(); for $v in &cells_in_range { if $cond { some.push(*$v); } } some }
//@ top
//raw let ghost p = |c: TableCell| met(c, *dto);
//@ loop 0 it
invariant
    all_sane(cells@), p == |c: TableCell| met(c, *dto),
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells@[i],
    some@ == picked(cells@, p, it.index@ as int),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == cells@[it.index@ as int]); assert(sane(cells@[it.index@ as int]));
//@ loop 0 after
picked_only(cells@, p, cells@.len() as int);
//@ loop 1 it
invariant
    it.seq().len() == cells_in_range@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells_in_range@[i],
    forall|i: int| 0 <= i < it.index@ ==> (#[trigger] cells_in_range@[i]).row_span <= 1 && cells_in_range@[i].column_span <= 1,
//@ loop 1 top
assert(*it.seq()[it.index@ as int] == cells_in_range@[it.index@ as int]);
//@ loop 2 it
invariant
    it.seq().len() == cells_in_range@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells_in_range@[i],
    hit is Some ==> cells_in_range@.contains(hit->Some_0) && hit->Some_0.row == dto.start_row && hit->Some_0.column == dto.start_column,
//@ loop 2 top
assert(*it.seq()[it.index@ as int] == cells_in_range@[it.index@ as int]);
//@ loop 3 it
invariant
    it.seq().len() == cells_in_range@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == cells_in_range@[i],
    some@ == picked(cells_in_range@, |c: TableCell| c.id != surviving_cell_id, it.index@ as int),
//@ loop 3 top
assert(*it.seq()[it.index@ as int] == cells_in_range@[it.index@ as int]);
//@ loop 3 after
let u = |c: TableCell| c.id != surviving_cell_id;
picked_only(cells_in_range@, u, cells_in_range@.len() as int);
assert(some@ == picked(cells_in_range@, u, cells_in_range@.len() as int));
//@ end
//@ fn crates/document_editing/src/use_cases/merge_table_cells_uc.rs execute_merge_table_cells
//@ from let mut updated_surviving = $x;
//@ to updated_surviving.updated_at = now;
//@ rename grown
//@ yields Ok(updated_surviving)
//@ sig (surviving_cell: &TableCell, dto: &Range, now: u64) -> Result<TableCell>
requires 0 <= dto.start_row <= dto.end_row <= 0x1000_0000, 0 <= dto.start_column <= dto.end_column <= 0x1000_0000,
ensures r is Ok && r->Ok_0 == (TableCell { updated_at: now, ..grown_to(*surviving_cell, *dto) }),
//@ ret r
//@ end
pub open spec fn grown_to(s: TableCell, d: Range) -> TableCell { TableCell { row_span: (d.end_row - d.start_row + 1) as i64, column_span: (d.end_column - d.start_column + 1) as i64, ..s } }
pub open spec fn merged(d: Range, s: TableCell) -> spec_fn(TableCell) -> Option<TableCell> { |c: TableCell| if c.id == s.id { Some(grown_to(s, d)) } else if met(c, d) { None } else { Some(c) } }
/// merging leaves a tiled grid
pub proof fn merge_tiles(v: Seq<TableCell>, d: Range, s: TableCell, away: Seq<TableCell>, rows: int, columns: int)
    requires
        tiles(v, rows, columns), all_sane(v), merges(v, d, s, away), 0 <= d.start_row <= d.end_row < rows, 0 <= d.start_column <= d.end_column < columns, rows <= 0x1000_0000, columns <= 0x1000_0000,
        forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).id == (#[trigger] v[j]).id ==> i == j,
    ensures tiles(kept(v, merged(d, s), v.len() as int), rows, columns)
{
    let f = merged(d, s); let n = v.len() as int; let w = kept(v, f, n); let q = source(v, f, n);
    draws(v, f, n);
    let x = choose|x: int| 0 <= x < v.len() && v[x] == s;
    let g = grown_to(s, d);
    assert(f(v[x]) is Some); assert(drawn_at(q, x));
    let y = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == x;
    assert(w[y] == g);
    assert forall|j: int| 0 <= j < w.len() && j != y implies #[trigger] w[j] == v[q[j]] && !met(w[j], d) && sane(w[j]) by { assert(q[j] != q[y]); assert(v[q[j]].id != v[x].id); assert(sane(v[q[j]])); }
    assert forall|r: int, k: int| covers(g, r, k) <==> d.start_row <= r <= d.end_row && d.start_column <= k <= d.end_column by {}
    assert forall|r: int, k: int| 0 <= r < rows && 0 <= k < columns implies #[trigger] filled(w, r, k) by {
        if covers(g, r, k) { assert(covers(w[y], r, k)); } else {
            assert(filled(v, r, k));
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] covers(v[i], r, k);
            if met(v[i], d) { assert(sane(v[i])); assert(v[i].row_span == 1 && v[i].column_span == 1); assert(covers(g, r, k)); }
            if i == x { assert(met(v[i], d)); }
            assert(v[i].id != v[x].id);
            assert(f(v[i]) == Some(v[i])); assert(drawn_at(q, i));
            let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == i;
            assert(covers(w[j], r, k));
        }
    }
    assert forall|i: int, j: int, r: int, k: int| 0 <= i < w.len() && 0 <= j < w.len() && #[trigger] covers(w[i], r, k) && #[trigger] covers(w[j], r, k) implies i == j by {
        if i != y && j != y { assert(covers(v[q[i]], r, k) && covers(v[q[j]], r, k)); }
        else if i != j { let o = if i == y { j } else { i }; assert(!met(w[o], d)); assert(covers(w[o], r, k) && covers(g, r, k)); }
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).row + w[i].row_span <= rows && w[i].column + w[i].column_span <= columns by { if i != y { assert(w[i] == v[q[i]]); } }
}
// ---- the parts become cells
#[verifier::external_body] // TRUSTED: &v[a..]
pub fn std_tail(v: &Vec<(i64, i64, i64, i64)>, a: usize) -> (r: &[(i64, i64, i64, i64)]) requires a <= v@.len() ensures r@ == v@.skip(a as int) { &v[a..] }
pub open spec fn at_part(c: TableCell, t: (i64, i64, i64, i64)) -> bool { c.row == t.0 && c.column == t.1 && c.row_span == t.2 && c.column_span == t.3 && c.cell_frame is Some }
//@ fn crates/document_editing/src/use_cases/split_table_cell_uc.rs execute_split_table_cell
//@ from let (_, _, first_rs, first_cs) = sub_cells[0];
//@ to updated_cell.updated_at = now;
//@ rename first_part
//@ yields Ok(updated_cell)
//@ sig (sub_cells: &Vec<(i64, i64, i64, i64)>, cell: TableCell, now: u64) -> Result<TableCell>
requires sub_cells@.len() >= 1,
ensures r is Ok && r->Ok_0 == (TableCell { row_span: sub_cells@[0].2, column_span: sub_cells@[0].3, updated_at: now, ..cell }),
//@ ret r
//@ end
//@ fn crates/document_editing/src/use_cases/split_table_cell_uc.rs execute_split_table_cell
//@ from let mut new_cell_blocks: Vec<Block> = $x;
//@ to for &(r, c, rs, cs) in &sub_cells[1..] { $x }
//@ rename other_parts
//@ yields Ok(())
//@ sig (uow: &mut Book, sub_cells: Vec<(i64, i64, i64, i64)>, mut all_cell_ids_result: Vec<i64>, table_id: u64, now: u64) -> Result<()>
requires sub_cells@.len() >= 1,
ensures
    r is Ok ==> final(uow).made@.len() == old(uow).made@.len() + sub_cells@.len() - 1 && forall|i: int| 0 <= i < sub_cells@.len() - 1 ==> at_part(final(uow).made@[old(uow).made@.len() + i], #[trigger] sub_cells@[1 + i]),
//@ ret r
//@ rw create_cell_frame(&mut *uow, doc_id, now) => create_cell_frame(uow)
//@ rw Vec::with_capacity($x) => Vec::new()
//@ rw &sub_cells[1..] => std_tail(&sub_cells, 1)
//@ rwstmt all_cell_ids_result.push($x); =>
//@ top
//raw let ghost o = uow.made@;
//@ loop 0 it
invariant
    it.seq().len() == sub_cells@.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == sub_cells@[1 + i],
    uow.made@.len() == o.len() + it.index@, forall|i: int| 0 <= i < it.index@ ==> at_part(uow.made@[o.len() + i], #[trigger] sub_cells@[1 + i]),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == sub_cells@[1 + it.index@ as int]);
//@ end
// ---- a new table
pub struct Size { pub rows: i64, pub columns: i64 } // TRUSTED: the fields of the request used here
pub struct Made { pub id: u64 } // TRUSTED: the fields of the created table used here
pub open spec fn single(c: TableCell, r: int, k: int) -> bool { c.row == r && c.column == k && c.row_span == 1 && c.column_span == 1 && c.cell_frame is Some }
/// row by row, one cell for every place
pub open spec fn grid(v: Seq<TableCell>, columns: int, n: int) -> bool { v.len() == n && forall|m: int| 0 <= m < n ==> single(#[trigger] v[m], m / columns, m % columns) }
//@ fn crates/document_editing/src/use_cases/insert_table_uc.rs execute_insert_table
//@ from let mut cell_blocks: Vec<Block> = $x;
//@ to for r in 0..dto.rows { $x }
//@ rename fill_table
//@ yields Ok((cell_blocks.len(), cell_frame_ids.len()))
//@ sig (uow: &mut Book, dto: &Size, created_table: &Made, now: u64) -> Result<(usize, usize)>
requires 1 <= dto.rows <= 0x1000_0000, 1 <= dto.columns <= 0x1000_0000,
ensures
    r is Ok ==> final(uow).made@.len() >= old(uow).made@.len() && grid(final(uow).made@.skip(old(uow).made@.len() as int), dto.columns as int, dto.rows * dto.columns),
    r is Ok ==> r->Ok_0.0 == dto.rows * dto.columns && r->Ok_0.1 == dto.rows * dto.columns,
//@ ret r
//@ rw create_cell_frame(uow, doc_id, now) => create_cell_frame(uow)
//@ rw Vec::with_capacity($x) => Vec::new()
//@ top
//raw let ghost o = uow.made@;
//@ loop 0 before
assert(0 * dto.columns == 0) by (nonlinear_arith); assert(uow.made@.skip(o.len() as int) =~= Seq::empty());
//@ loop 0
invariant
    1 <= dto.rows <= 0x1000_0000, 1 <= dto.columns <= 0x1000_0000, uow.made@.len() >= o.len(),
    grid(uow.made@.skip(o.len() as int), dto.columns as int, r * dto.columns), cell_blocks@.len() == r * dto.columns, cell_frame_ids@.len() == r * dto.columns,
//@ loop 0 bottom
assert((r + 1) * dto.columns == r * dto.columns + dto.columns) by (nonlinear_arith);
//@ loop 1
invariant
    0 <= r < dto.rows <= 0x1000_0000, 1 <= dto.columns <= 0x1000_0000, uow.made@.len() >= o.len(),
    grid(uow.made@.skip(o.len() as int), dto.columns as int, r * dto.columns + c), cell_blocks@.len() == r * dto.columns + c, cell_frame_ids@.len() == r * dto.columns + c,
//@ loop 1 top
//raw let ghost pre = uow.made@; proof { part_at(r as int, c as int, dto.columns as int); }
//@ loop 1 bottom
assert(uow.made@.skip(o.len() as int) =~= pre.skip(o.len() as int).push(uow.made@.last()));
//@ end
pub proof fn grid_tiles(v: Seq<TableCell>, rows: int, columns: int)
    requires 1 <= rows, 1 <= columns, grid(v, columns, rows * columns)
    ensures tiles(v, rows, columns)
{
    assert forall|r: int, k: int| 0 <= r < rows && 0 <= k < columns implies #[trigger] filled(v, r, k) by {
        part_at(r, k, columns);
        assert(0 <= r * columns + k < rows * columns) by (nonlinear_arith) requires 0 <= r < rows, 0 <= k < columns;
        assert(single(v[r * columns + k], r, k)); assert(covers(v[r * columns + k], r, k));
    }
    assert forall|i: int, j: int, r: int, k: int| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] covers(v[i], r, k) && #[trigger] covers(v[j], r, k) implies i == j by {
        let a = split_index(i, columns, rows); let b = split_index(j, columns, rows);
        assert(single(v[i], a.0, a.1) && single(v[j], b.0, b.1));
    }
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).row + v[i].row_span <= rows && v[i].column + v[i].column_span <= columns by { let a = split_index(i, columns, rows); assert(single(v[i], a.0, a.1)); }
}
}
fn main() {}
