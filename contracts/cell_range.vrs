use vstd::prelude::*;
verus! {
//@ item crates/public_api/src/flow.rs CellRange
pub type Cell = (usize, usize, usize, usize);
pub open spec fn cell_ok(c: Cell) -> bool { c.2 >= 1 && c.3 >= 1 && c.0 + c.2 <= usize::MAX && c.1 + c.3 <= usize::MAX }
/// the rectangle and the cell have a grid position in common
pub open spec fn meets(r: CellRange, c: Cell) -> bool {
    c.0 <= r.end_row && r.start_row <= c.0 + c.2 - 1 && c.1 <= r.end_col && r.start_col <= c.1 + c.3 - 1
}
/// the rectangle holds the whole cell
pub open spec fn holds(r: CellRange, c: Cell) -> bool {
    r.start_row <= c.0 && c.0 + c.2 - 1 <= r.end_row && r.start_col <= c.1 && c.1 + c.3 - 1 <= r.end_col
}
/// no cell is cut by the rectangle
pub open spec fn uncut(r: CellRange, cells: Seq<Cell>) -> bool { forall|i: int| 0 <= i < cells.len() && meets(r, #[trigger] cells[i]) ==> holds(r, cells[i]) }
pub open spec fn contains(a: CellRange, b: CellRange) -> bool {
    a.table_id == b.table_id && a.start_row <= b.start_row && a.start_col <= b.start_col && b.end_row <= a.end_row && b.end_col <= a.end_col
}
pub open spec fn proper(r: CellRange) -> bool { r.start_row <= r.end_row && r.start_col <= r.end_col }
/// r is within every rectangle around b that cuts no cell
pub open spec fn within_all(r: CellRange, b: CellRange, cells: Seq<Cell>) -> bool {
    forall|x: CellRange| #[trigger] contains(x, b) && uncut(x, cells) ==> contains(x, r)
}
pub open spec fn slack(r: CellRange) -> int { r.start_row + r.start_col + (usize::MAX - r.end_row) + (usize::MAX - r.end_col) }
impl CellRange {
//@ fn crates/public_api/src/flow.rs CellRange::expand_for_spans
requires
    proper(self), forall|i: int| 0 <= i < cells@.len() ==> cell_ok(#[trigger] cells@[i]),
ensures
    // the smallest rectangle around the range that cuts no cell
    contains(r, self), uncut(r, cells@), within_all(r, self, cells@), proper(r),
//@ top
//raw let ghost me = self;
//@ loop 0
invariant
    forall|i: int| 0 <= i < cells@.len() ==> cell_ok(#[trigger] cells@[i]),
    proper(this), contains(this, me), within_all(this, me, cells@),
ensures
    proper(this), contains(this, me), within_all(this, me, cells@), uncut(this, cells@),
decreases slack(this),
//@ loop 0 top
//raw let ghost outer = this;
//@ loop 1 it
invariant
    forall|i: int| 0 <= i < cells@.len() ==> cell_ok(#[trigger] cells@[i]),
    it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == cells@[i],
    proper(this), contains(this, me), within_all(this, me, cells@),
    !expanded ==> this == outer, expanded ==> slack(this) < slack(outer),
    !expanded ==> forall|i: int| 0 <= i < it.index@ && meets(this, #[trigger] cells@[i]) ==> holds(this, cells@[i]),
//@ loop 1 top
//raw let ghost was = this; let ghost k = it.index@ as int;
proof {
    assert forall|x: CellRange| #[trigger] contains(x, me) && uncut(x, cells@) implies (meets(was, cells@[k]) ==> holds(x, cells@[k])) by {
        assert(contains(x, was));
        assert(meets(was, cells@[k]) ==> meets(x, cells@[k]));
    }
}
//@ end
}
}
fn main() {}
