//! C16 table cells form a consistent grid.
use crate::ensure;
use crate::rng::Rng;
use crate::run::*;
use std::result::Result;
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cell { r: usize, c: usize, rs: usize, cs: usize, text: Vec<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct Grid { rows: usize, cols: usize, cells: Vec<Cell> }

#[derive(Clone, Debug)]
pub enum TOp { InsRow(usize), InsCol(usize), RemRow(usize), RemCol(usize), Merge(usize, usize, usize, usize), Split(usize, usize, usize, usize), Type(usize, usize, String), Break(usize, usize), Erase(usize, usize) }

impl Grid {
    pub fn new(rows: usize, cols: usize) -> Grid {
        let cells = (0..rows).flat_map(|r| (0..cols).map(move |c| Cell { r, c, rs: 1, cs: 1, text: vec![String::new()] })).collect();
        Grid { rows, cols, cells }
    }
    fn at(&self, r: usize, c: usize) -> Option<usize> { self.cells.iter().position(|x| x.r <= r && r < x.r + x.rs && x.c <= c && c < x.c + x.cs) }
    fn covered_once(&self) -> bool {
        (0..self.rows).all(|r| (0..self.cols).all(|c| self.cells.iter().filter(|x| x.r <= r && r < x.r + x.rs && x.c <= c && c < x.c + x.cs).count() == 1))
            && self.cells.iter().all(|x| x.rs > 0 && x.cs > 0 && x.r + x.rs <= self.rows && x.c + x.cs <= self.cols)
    }
    fn sorted(mut self) -> Grid { self.cells.sort(); self }
    fn transposed(&self) -> Grid {
        Grid { rows: self.cols, cols: self.rows, cells: self.cells.iter().map(|x| Cell { r: x.c, c: x.r, rs: x.cs, cs: x.rs, text: x.text.clone() }).collect() }
    }
    /// None: the operation has to be refused.
    pub fn apply(&self, op: &TOp) -> Option<Grid> {
        let mut g = self.clone();
        match op {
            TOp::InsRow(k) => {
                if *k > g.rows { return None; }
                for x in g.cells.iter_mut() { if x.r >= *k { x.r += 1; } else if x.r + x.rs > *k { x.rs += 1; } }
                g.rows += 1;
                for c in 0..g.cols { if g.at(*k, c).is_none() { g.cells.push(Cell { r: *k, c, rs: 1, cs: 1, text: vec![String::new()] }); } }
            }
            TOp::RemRow(k) => {
                if *k >= g.rows || g.rows == 1 { return None; }
                g.cells.retain(|x| !(x.r == *k && x.rs == 1));
                for x in g.cells.iter_mut() { if x.r > *k { x.r -= 1; } else if x.r + x.rs > *k { x.rs -= 1; } }
                g.rows -= 1;
            }
            TOp::InsCol(k) => return g.transposed().apply(&TOp::InsRow(*k)).map(|g| g.transposed()),
            TOp::RemCol(k) => return g.transposed().apply(&TOp::RemRow(*k)).map(|g| g.transposed()),
            TOp::Merge(a, b, c, d) => {
                if a > c || b > d || *c >= g.rows || *d >= g.cols { return None; }
                let touches = |x: &Cell| x.r <= *c && x.r + x.rs > *a && x.c <= *d && x.c + x.cs > *b;
                if g.cells.iter().any(|x| touches(x) && (x.rs > 1 || x.cs > 1)) { return None; }
                let keep = g.at(*a, *b).map(|i| g.cells[i].clone())?;
                g.cells.retain(|x| !touches(x));
                g.cells.push(Cell { rs: c - a + 1, cs: d - b + 1, ..keep });
            }
            TOp::Split(r, c, n, m) => {
                let i = g.at(*r, *c)?;
                let x = g.cells[i].clone();
                if *n < 1 || *m < 1 || *n > x.rs || *m > x.cs || (x.rs == 1 && x.cs == 1) { return None; }
                let mut parts = vec![];
                let mut rr = x.r;
                for p in 0..*n {
                    let h = x.rs / n + usize::from(p < x.rs % n);
                    let mut cc = x.c;
                    for q in 0..*m { let w = x.cs / m + usize::from(q < x.cs % m); parts.push(Cell { r: rr, c: cc, rs: h, cs: w, text: vec![String::new()] }); cc += w; }
                    rr += h;
                }
                parts[0].text = x.text;
                g.cells.remove(i);
                g.cells.extend(parts);
            }
            TOp::Type(r, c, t) => { let i = g.at(*r, *c)?; g.cells[i].text[0].push_str(t); }
            TOp::Break(r, c) => { let i = g.at(*r, *c)?; g.cells[i].text.insert(1, String::new()); }
            TOp::Erase(r, c) => { let i = g.at(*r, *c)?; g.cells[i].text[0].pop(); }
        }
        Some(g)
    }
    fn short(&self) -> String {
        format!("{}x{} {}", self.rows, self.cols, self.cells.iter().map(|x| format!("({},{} {}x{} {:?})", x.r, x.c, x.rs, x.cs, x.text)).collect::<Vec<_>>().join(""))
    }
}

fn table_of(doc: &TextDocument) -> Option<TextTable> { doc.flow().into_iter().find_map(|e| match e { FlowElement::Table(t) => Some(t), _ => None }) }
fn snap_of(doc: &TextDocument) -> Option<TableSnapshot> { doc.snapshot_flow().elements.into_iter().find_map(|e| match e { FlowElementSnapshot::Table(t) => Some(t), _ => None }) }
fn around(doc: &TextDocument) -> Vec<String> { doc.flow().into_iter().filter_map(|e| match e { FlowElement::Block(b) => Some(b.text()), FlowElement::Table(_) => Some("<table>".into()), _ => None }).collect() }

/// The table of the document against the grid, through every way of looking at it.
fn check(doc: &TextDocument, g: &Grid, outside: &[String]) -> Result<(), String> {
    let t = table_of(doc).ok_or("the document has no table")?;
    ensure!(t.rows() == g.rows && t.columns() == g.cols, "table is {}x{}, expected {}x{}", t.rows(), t.columns(), g.rows, g.cols);
    ensure!(t.column_widths().is_empty() || t.column_widths().len() == g.cols, "{} column widths of {} columns", t.column_widths().len(), g.cols);
    let s = snap_of(doc).ok_or("no table is shown")?;
    for (name, s) in [("document snapshot", &s), ("table snapshot", &t.snapshot())] {
        let got = Grid { rows: s.rows, cols: s.columns, cells: s.cells.iter().map(|x| Cell { r: x.row, c: x.column, rs: x.row_span, cs: x.column_span, text: x.blocks.iter().map(|b| b.text.clone()).collect() }).collect() }.sorted();
        ensure!(got.covered_once(), "{name}: the cells do not cover each grid position once: {}", got.short());
        ensure!(got == g.clone().sorted(), "{name}: {}, expected {}", got.short(), g.clone().sorted().short());
    }
    // positions run through the flow without gap or overlap, cells row by row
    let mut at = 0;
    let mut seen = 0;
    let mut next = |what: String, pos: usize, len: usize| -> Result<(), String> {
        ensure!(pos == at, "{what} is at {pos}, expected {at}");
        at = pos + len + 1;
        seen += 1;
        Ok(())
    };
    for e in doc.flow() { match e {
        FlowElement::Block(b) => next(format!("paragraph {:?}", b.text()), b.position(), b.length())?,
        FlowElement::Table(t) => { for r in 0..t.rows() { for c in 0..t.columns() { if let Some(x) = t.cell(r, c) { for b in x.blocks() { next(format!("cell ({r},{c}) {:?}", b.text()), b.position(), b.length())?; } } } } }
        _ => {}
    } }
    let n = doc.stats();
    ensure!(n.block_count == seen, "{} paragraphs counted, {seen} present", n.block_count);
    ensure!(n.character_count + seen == at, "{} characters counted, {} present", n.character_count, at - seen);
    ensure!(around(doc) == outside, "around the table: {:?}, expected {outside:?}", around(doc));
    for r in 0..g.rows + 1 { for c in 0..g.cols + 1 {
        let want = g.cells.iter().find(|x| x.r == r && x.c == c);
        match (t.cell(r, c), want) {
            (None, None) => {}
            (Some(x), Some(w)) => {
                ensure!((x.row(), x.column(), x.row_span(), x.column_span()) == (w.r, w.c, w.rs, w.cs), "cell ({r},{c}) is {:?}", (x.row(), x.column(), x.row_span(), x.column_span()));
                let bs = x.blocks();
                ensure!(bs.iter().map(|b| b.text()).collect::<Vec<_>>() == w.text, "cell ({r},{c}) holds {:?}, expected {:?}", bs.iter().map(|b| b.text()).collect::<Vec<_>>(), w.text);
                ensure!(x.snapshot_blocks().iter().map(|b| b.text.clone()).collect::<Vec<_>>() == w.text, "snapshot of cell ({r},{c})");
                for b in bs {
                    let k = b.table_cell();
                    ensure!(k.as_ref().is_some_and(|k| k.table.id() == t.id() && k.row == r && k.column == c), "a paragraph of cell ({r},{c}) says it is in {:?}", k.map(|k| (k.row, k.column)));
                    let k = doc.cursor_at(b.position()).current_table_cell();
                    ensure!(k.as_ref().is_some_and(|k| k.row == r && k.column == c), "a cursor in cell ({r},{c}) says it is in {:?}", k.map(|k| (k.row, k.column)));
                }
            }
            (x, w) => return Err(format!("cell ({r},{c}) exists: {}, expected {}", x.is_some(), w.is_some())),
        }
    } }
    Ok(())
}

/// The smallest rectangle over the given one that cuts no cell.
fn closure(g: &Grid, a: (usize, usize, usize, usize)) -> (usize, usize, usize, usize) {
    let (mut r0, mut c0, mut r1, mut c1) = a;
    loop {
        let before = (r0, c0, r1, c1);
        for x in &g.cells {
            if x.r <= r1 && x.r + x.rs > r0 && x.c <= c1 && x.c + x.cs > c0 { r0 = r0.min(x.r); c0 = c0.min(x.c); r1 = r1.max(x.r + x.rs - 1); c1 = c1.max(x.c + x.cs - 1); }
        }
        if before == (r0, c0, r1, c1) { return before; }
    }
}
fn check_selections(doc: &TextDocument, g: &Grid) -> Result<(), String> {
    let t = table_of(doc).ok_or("no table")?;
    let cur = doc.cursor();
    for r0 in 0..g.rows { for c0 in 0..g.cols { for r1 in r0..g.rows { for c1 in c0..g.cols {
        cur.select_cell_range(t.id(), r0, c0, r1, c1);
        let got = cur.selected_cell_range().map(|x| (x.start_row, x.start_col, x.end_row, x.end_col));
        let want = closure(g, (r0, c0, r1, c1));
        ensure!(got == Some(want), "selecting cells {:?} selects {got:?}, expected {want:?}", (r0, c0, r1, c1));
        let mut cells: Vec<(usize, usize)> = cur.selected_cells().iter().map(|x| (x.row, x.column)).collect();
        cells.sort();
        let mut exp: Vec<(usize, usize)> = g.cells.iter().filter(|x| x.r >= want.0 && x.r <= want.2 && x.c >= want.1 && x.c <= want.3).map(|x| (x.r, x.c)).collect();
        exp.sort();
        ensure!(cells == exp, "cells in {want:?}: {cells:?}, expected {exp:?}");
    } } } }
    Ok(())
}

fn run(doc: &TextDocument, op: &TOp) -> text_document::Result<()> {
    let t = table_of(doc).unwrap();
    let c = doc.cursor();
    let inside = |r: usize, k: usize| { let b = t.cell(r, k).unwrap().blocks()[0].clone(); doc.cursor_at(b.position() + b.length()) };
    match op {
        TOp::InsRow(k) => c.insert_table_row(t.id(), *k),
        TOp::InsCol(k) => c.insert_table_column(t.id(), *k),
        TOp::RemRow(k) => c.remove_table_row(t.id(), *k),
        TOp::RemCol(k) => c.remove_table_column(t.id(), *k),
        TOp::Merge(a, b, d, e) => c.merge_table_cells(t.id(), *a, *b, *d, *e),
        TOp::Split(r, k, n, m) => c.split_table_cell(t.cell(*r, *k).unwrap().id(), *n, *m),
        TOp::Type(r, k, s) => inside(*r, *k).insert_text(s),
        TOp::Break(r, k) => inside(*r, *k).insert_block(),
        TOp::Erase(r, k) => { let b = t.cell(*r, *k).unwrap().blocks()[0].clone(); if b.length() > 0 { inside(*r, *k).delete_previous_char() } else { Ok(()) } }
    }
}
fn step(doc: &TextDocument, g: &mut Grid, op: &TOp, outside: &[String], log: &mut Log) -> Result<bool, String> {
    log.say(format!("{op:?}"));
    let res = run(doc, op);
    let changed = match g.apply(op) {
        None => { ensure!(res.is_err(), "{op:?} on {} was not refused", g.short()); false }
        Some(h) => { e2s(res).map_err(|m| format!("{op:?} on {}: {m}", g.short()))?; *g = h; true }
    };
    check(doc, g, outside)?;
    Ok(changed)
}
fn fresh(before: &str, rows: usize, cols: usize, log: &mut Log) -> Result<(TextDocument, Grid, Vec<String>), String> {
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(before))?;
    let c = doc.cursor();
    c.move_position(MoveOperation::End, MoveMode::MoveAnchor, 1);
    e2s(c.insert_table(rows, cols))?;
    let mut g = Grid::new(rows, cols);
    log.say(format!("{rows}x{cols} table after {before:?}"));
    for i in 0..g.cells.len() {
        let (r, k) = (g.cells[i].r, g.cells[i].c);
        let t = TOp::Type(r, k, format!("{r}{k}"));
        e2s(run(&doc, &t))?;
        g = g.apply(&t).unwrap();
    }
    let out = around(&doc);
    check(&doc, &g, &out)?;
    Ok((doc, g, out))
}

/// Every table up to 3x3 x every merge of it x every structure operation, and back.
pub fn enum_tables(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let (rows, cols) = (1 + (i % 3) as usize, 1 + (i / 3 % 3) as usize);
    let mut k = (i / 9 % 81) as usize;
    let m = (k % 3, k / 3 % 3, k / 9 % 3, k / 27 % 3);
    k = (i / 729) as usize;
    if m.2 < m.0 || m.3 < m.1 || m.2 >= rows || m.3 >= cols { return Ok(()); }
    let op = match k {
        0..=4 => TOp::InsRow(k), 5..=9 => TOp::InsCol(k - 5), 10..=13 => TOp::RemRow(k - 10), 14..=17 => TOp::RemCol(k - 14),
        18..=26 => TOp::Split(m.0, m.1, 1 + (k - 18) % 3, 1 + (k - 18) / 3),
        27..=35 => TOp::Merge((k - 27) % 3, (k - 27) / 3, rows - 1, cols - 1),
        _ => TOp::Merge(0, 0, (k - 36) % 3, (k - 36) / 3),
    };
    let (doc, mut g, out) = fresh("ab", rows, cols, log)?;
    let mut past = vec![g.clone()];
    if m.0 != m.2 || m.1 != m.3 { step(&doc, &mut g, &TOp::Merge(m.0, m.1, m.2, m.3), &out, log)?; past.push(g.clone()); }
    check_selections(&doc, &g)?;
    if step(&doc, &mut g, &op, &out, log)? { past.push(g.clone()); }
    check_selections(&doc, &g)?;
    log.nontrivial = past.len() > 1;
    for j in (0..past.len() - 1).rev() { e2s(doc.undo())?; check(&doc, &past[j], &out).map_err(|m| format!("after undo: {m}"))?; }
    for g in &past[1..] { e2s(doc.redo())?; check(&doc, g, &out).map_err(|m| format!("after redo: {m}"))?; }
    Ok(())
}

pub fn rnd_tables(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let before = r.pick(&["", "ab", "a\nb", "é😀\n"]).to_string();
    let (rows, cols) = (r.range(1, 4), r.range(1, 4));
    let (doc, mut g, out) = fresh(&before, rows, cols, log)?;
    let mut past = vec![g.clone()];
    let mut at = 0;
    for _ in 0..3 + i % 10 {
        if r.chance(1, 7) && at > 0 { log.say("undo"); e2s(doc.undo())?; at -= 1; g = past[at].clone(); check(&doc, &g, &out).map_err(|m| format!("after undo: {m}"))?; continue; }
        if r.chance(1, 6) && at + 1 < past.len() { log.say("redo"); e2s(doc.redo())?; at += 1; g = past[at].clone(); check(&doc, &g, &out).map_err(|m| format!("after redo: {m}"))?; continue; }
        let x = r.pick(&g.cells).clone();
        let (p, q) = (r.below(g.rows), r.below(g.cols));
        let op = match r.below(12) {
            0 | 1 if g.rows < 5 => TOp::InsRow(r.below(g.rows + 2)),
            2 | 3 if g.cols < 5 => TOp::InsCol(r.below(g.cols + 2)),
            4 => TOp::RemRow(r.below(g.rows + 1)),
            5 => TOp::RemCol(r.below(g.cols + 1)),
            6 | 7 => TOp::Merge(p, q, (p + r.below(3)).min(g.rows), (q + r.below(3)).min(g.cols)),
            8 | 9 => TOp::Split(x.r, x.c, r.below(x.rs + 2), r.below(x.cs + 2)),
            10 => TOp::Break(x.r, x.c),
            _ => if r.chance(2, 3) { TOp::Type(x.r, x.c, r.pick(&["é", "zz", "日 b"]).to_string()) } else { TOp::Erase(x.r, x.c) },
        };
        let typing = matches!(op, TOp::Type(..) | TOp::Erase(..) | TOp::Break(..));
        if typing { doc.cursor().begin_edit_block(); }
        let old = g.clone();
        let done = step(&doc, &mut g, &op, &out, log);
        if typing { doc.cursor().end_edit_block(); }
        if done? && !(g == old && typing) { log.nontrivial = true; past.truncate(at + 1); past.push(g.clone()); at += 1; }
        if r.chance(1, 3) { check_selections(&doc, &g)?; }
    }
    while at > 0 { e2s(doc.undo())?; at -= 1; check(&doc, &past[at], &out).map_err(|m| format!("undoing everything: {m}"))?; }
    while at + 1 < past.len() { e2s(doc.redo())?; at += 1; check(&doc, &past[at], &out).map_err(|m| format!("redoing everything: {m}"))?; }
    Ok(())
}
