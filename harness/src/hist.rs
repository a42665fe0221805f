//! C03: undo and redo restore exactly. C04: edit blocks undo as one step and the stacks obey their discipline.
use crate::c01::start;
use crate::ensure;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::rc::Rc;
use std::result::Result;
use text_document::*;

/// One recorded operation with the caret it left.
#[derive(Clone)]
struct Entry { before: Rc<View>, after: Rc<View>, op: Option<Op>, caret: usize }

/// What the undo stack may look like. Contiguous typing and consecutive one-character deletions
/// may share a step, and an operation that changed nothing may have no step, so this is a set of
/// hypotheses (entries, number of entries done); an observation rules out the others.
#[derive(Clone)]
struct Hyp { e: Vec<Entry>, idx: usize }
pub struct Hist { hs: Vec<Hyp> }

impl Hyp {
    fn joinable(&self, j: usize) -> bool {
        let (x, y) = (&self.e[j - 1], &self.e[j]);
        if x.before == x.after || y.before == y.after { return true; }
        match (&x.op, &y.op) {
            (Some(Op::Ins { .. }), Some(Op::Ins { p, a, .. })) => p == a && *p == x.caret,
            (Some(Op::Del { .. } | Op::DelNext { .. } | Op::DelPrev { .. }), Some(Op::Del { .. } | Op::DelNext { .. } | Op::DelPrev { .. })) => true,
            _ => false,
        }
    }
    fn undone(&self, now: &View) -> Vec<Hyp> {
        let (mut k, mut out) = (self.idx, vec![]);
        while k > 0 {
            if k < self.idx && !self.joinable(k) { break; }
            k -= 1;
            if *self.e[k].before == *now { out.push(Hyp { e: self.e.clone(), idx: k }); }
        }
        out
    }
    fn redone(&self, now: &View) -> Vec<Hyp> {
        let (mut k, mut out) = (self.idx, vec![]);
        while k < self.e.len() {
            if k > self.idx && !self.joinable(k) { break; }
            k += 1;
            if *self.e[k - 1].after == *now { out.push(Hyp { e: self.e.clone(), idx: k }); }
        }
        out
    }
}

fn dedup(v: Vec<Hyp>) -> Vec<Hyp> {
    let mut out: Vec<Hyp> = vec![];
    for h in v {
        let same = |x: &Hyp| x.idx == h.idx && x.e.len() == h.e.len() && x.e.iter().zip(&h.e).all(|(a, b)| Rc::ptr_eq(&a.before, &b.before) && Rc::ptr_eq(&a.after, &b.after));
        if !out.iter().any(same) { out.push(h); }
    }
    out
}

impl Hist {
    pub fn new() -> Self { Hist { hs: vec![Hyp { e: vec![], idx: 0 }] } }
    pub fn push(&mut self, before: &Rc<View>, after: &Rc<View>, op: Option<&Op>, caret: usize) {
        for h in self.hs.iter_mut() {
            h.e.truncate(h.idx);
            h.e.push(Entry { before: before.clone(), after: after.clone(), op: op.cloned(), caret });
            h.idx += 1;
        }
    }
    pub fn clear(&mut self) { *self = Hist::new(); }
    pub fn done(&self) -> usize { self.hs.iter().map(|h| h.idx).max().unwrap() }
    pub fn undo(&mut self, now: &View) -> Result<(), String> {
        let n: Vec<Hyp> = self.hs.iter().flat_map(|h| h.undone(now)).collect();
        if n.is_empty() {
            let h = &self.hs[0];
            let want = if h.idx > 0 { h.e[h.idx - 1].before.short() } else { "nothing to undo".into() };
            return Err(format!("undo leaves {}, expected {}", now.short(), want));
        }
        self.hs = dedup(n);
        Ok(())
    }
    pub fn redo(&mut self, now: &View) -> Result<(), String> {
        let n: Vec<Hyp> = self.hs.iter().flat_map(|h| h.redone(now)).collect();
        if n.is_empty() {
            let h = &self.hs[0];
            let want = if h.idx < h.e.len() { h.e[h.idx].after.short() } else { "nothing to redo".into() };
            return Err(format!("redo leaves {}, expected {}", now.short(), want));
        }
        self.hs = dedup(n);
        Ok(())
    }
    /// can_undo and can_redo agree with the history.
    pub fn flags(&mut self, doc: &TextDocument) -> Result<(), String> {
        let (u, r) = (doc.can_undo(), doc.can_redo());
        let ok = |h: &Hyp| {
            let must_undo = h.e[..h.idx].iter().any(|x| x.before != x.after);
            let must_redo = h.e[h.idx..].iter().any(|x| x.before != x.after);
            (!must_undo || u) && (!must_redo || r) && (h.idx > 0 || !u) && (h.idx < h.e.len() || !r)
        };
        let n: Vec<Hyp> = self.hs.iter().filter(|h| ok(h)).cloned().collect();
        ensure!(!n.is_empty(), "can_undo is {u} and can_redo is {r} after {} operations to undo and {} to redo", self.hs[0].idx, self.hs[0].e.len() - self.hs[0].idx);
        self.hs = n;
        Ok(())
    }
    /// Run one operation and record it; true when it changed the document.
    pub fn step(&mut self, doc: &TextDocument, op: &Op) -> Result<(bool, usize), String> {
        let v = Rc::new(view(doc));
        let c = op.cursor(doc);
        let res = op.run(doc, &c);
        let w = Rc::new(view(doc));
        if let Err(e) = res {
            ensure!(w == v, "{op:?} failed with {e}, yet the document changed from {} to {}", v.short(), w.short());
            return Ok((false, c.position()));
        }
        // where nothing changed the stack may or may not have a step; with redo left there is none
        if v != w || !doc.can_redo() { self.push(&v, &w, Some(op), c.position()); }
        Ok((v != w, c.position()))
    }
    pub fn ends(&self) -> Option<(Rc<View>, Rc<View>)> {
        let h = &self.hs[0];
        Some((h.e.first()?.before.clone(), h.e.last()?.after.clone()))
    }
    pub fn len(&self) -> usize { self.hs[0].e.len() }
}

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

fn play(r: &mut Rng, log: &mut Log, steps: usize, kinds: &[u8], groups: bool) -> Result<(), String> {
    let g = r.chance(1, 4);
    let doc = start(r, log, g)?;
    let mut h = Hist::new();
    let mut changed = false;
    for _ in 0..steps {
        match r.below(if groups { 12 } else { 10 }) {
            0 | 1 if doc.can_undo() => {
                log.say("undo");
                e2s(doc.undo())?;
                h.undo(&view(&doc))?;
            }
            2 if doc.can_redo() => {
                log.say("redo");
                e2s(doc.redo())?;
                h.redo(&view(&doc))?;
            }
            3 if h.done() > 0 => {
                // down by up to 3 and back up again
                let n = r.range(1, 3);
                let mut down = vec![view(&doc)];
                for _ in 0..n { if doc.can_undo() { log.say("undo"); e2s(doc.undo())?; let v = view(&doc); h.undo(&v)?; down.push(v); } }
                down.pop();
                while let Some(x) = down.pop() {
                    log.say("redo");
                    e2s(doc.redo())?;
                    let v = view(&doc);
                    ensure!(v == x, "redo leaves {}, before the undo it was {}", v.short(), x.short());
                    h.redo(&v)?;
                }
            }
            10 | 11 => {
                let before = Rc::new(view(&doc));
                let c = doc.cursor();
                log.say("begin edit block");
                c.begin_edit_block();
                let nest = r.chance(1, 4);
                let n = r.below(4);
                for i in 0..n {
                    if nest && i == 1 { log.say("begin edit block"); doc.cursor().begin_edit_block(); }
                    let op = gen_op(r, &view(&doc), kinds);
                    log.say(format!("{op:?}"));
                    let v = view(&doc);
                    if op.apply(&doc).is_err() { ensure!(view(&doc) == v, "a failed operation changed the document"); }
                }
                if nest && n > 1 { log.say("end edit block"); c.end_edit_block(); }
                log.say("end edit block");
                c.end_edit_block();
                let after = Rc::new(view(&doc));
                if before != after {
                    changed = true;
                    h.push(&before, &after, None, 0);
                    log.say("undo");
                    e2s(doc.undo())?;
                    let v = view(&doc);
                    ensure!(v == *before, "undo of an edit block leaves {}, expected {}", v.short(), before.short());
                    log.say("redo");
                    e2s(doc.redo())?;
                    let v = view(&doc);
                    ensure!(v == *after, "redo of an edit block leaves {}, expected {}", v.short(), after.short());
                } else if n > 0 && !doc.can_redo() { h.push(&before, &after, None, 0); }
            }
            9 if groups && r.chance(1, 3) => {
                log.say("clear undo history");
                doc.clear_undo_redo();
                h.clear();
            }
            _ => {
                let v = view(&doc);
                let op = gen_op(r, &v, kinds);
                log.say(format!("{op:?}"));
                let redo_before = doc.can_redo();
                let ch = h.step(&doc, &op)?.0;
                changed |= ch;
                if ch { ensure!(!doc.can_redo(), "an edit left the redo history in place (it was {redo_before})"); }
            }
        }
        h.flags(&doc)?;
    }
    log.nontrivial = changed;
    let last = view(&doc);
    let (first, end) = h.ends().map(|(a, b)| ((*a).clone(), (*b).clone())).unwrap_or((last.clone(), last.clone()));
    let mut n = 0;
    log.say("undo everything");
    while doc.can_undo() { e2s(doc.undo())?; h.undo(&view(&doc))?; n += 1; ensure!(n <= h.len(), "more undo steps than operations"); }
    ensure!(view(&doc) == first, "undoing everything leaves {}, it began as {}", view(&doc).short(), first.short());
    log.say("redo everything");
    while doc.can_redo() { e2s(doc.redo())?; h.redo(&view(&doc))?; }
    ensure!(view(&doc) == end, "redoing everything leaves {}, expected {}", view(&doc).short(), end.short());
    let t = e2s(doc.to_plain_text())?;
    ensure!(t == end.text(), "plain text is {t:?}, expected {:?}", end.text());
    Ok(())
}

pub fn rnd_undo(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> { play(r, log, 4 + (i % 12) as usize, ALL_KINDS, false) }
pub fn rnd_typing(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    // typing, selections replaced while typing, one-character deletions: what may be merged into a step
    let doc = start(r, log, i % 3 == 0)?;
    let first = view(&doc);
    let mut h = Hist::new();
    let mut caret = crate::words::snap(&first, r.below(first.max_pos() + 1));
    for _ in 0..4 + i % 9 {
        let v = view(&doc);
        let jump = r.chance(1, 5);
        if jump { caret = crate::words::snap(&v, r.below(v.max_pos() + 1)); }
        let a = if r.chance(1, 5) { crate::words::snap(&v, r.below(v.max_pos() + 1)) } else { caret };
        let p = caret;
        let op = match r.below(8) {
            0 if a == p => Op::DelNext { p },
            1 | 2 if a == p => Op::DelPrev { p },
            3 if r.chance(1, 2) => Op::SetFmt { p, a, f: set_format(r) },
            4 => Op::Split { p, a },
            _ => Op::Ins { p, a, t: r.pick(&["a", "b", " ", "é", "😀", "word", "."]).to_string() },
        };
        log.say(format!("{op:?}"));
        let want = op.spec(&v).unwrap().0;
        let at = h.step(&doc, &op)?.1;
        let w = view(&doc);
        if w != v { log.nontrivial = true; }
        ensure!(w == want, "document is {}, expected {}", w.short(), want.short());
        caret = match &op { Op::SetFmt { .. } => p, _ => at };
        if r.chance(1, 7) && doc.can_undo() {
            log.say("undo, redo");
            e2s(doc.undo())?; h.undo(&view(&doc))?;
            e2s(doc.redo())?; h.redo(&view(&doc))?;
            ensure!(view(&doc) == w, "undo and redo leave {}, expected {}", view(&doc).short(), w.short());
        }
    }
    let last = view(&doc);
    log.say("undo everything");
    while doc.can_undo() { e2s(doc.undo())?; h.undo(&view(&doc))?; }
    ensure!(view(&doc) == first, "undoing everything leaves {}, it began as {}", view(&doc).short(), first.short());
    log.say("redo everything");
    while doc.can_redo() { e2s(doc.redo())?; h.redo(&view(&doc))?; }
    ensure!(view(&doc) == last, "redoing everything leaves {}, expected {}", view(&doc).short(), last.short());
    Ok(())
}
pub fn rnd_groups(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> { play(r, log, 3 + (i % 8) as usize, ALL_KINDS, true) }

/// Every sequence of up to 5 stack commands over {edit, undo, redo, grouped pair, empty group, clear}.
pub fn enum_stack(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(""))?;
    let (mut undo, mut redo): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut cur = String::new();
    let mut x = i;
    for k in 0..6 {
        let c = x % 6;
        x /= 6;
        match c {
            0 => {
                log.say("insert paragraph with a word at the start");
                undo.push(cur.clone()); redo.clear();
                let w = format!("w{k}");
                // a formatted insertion never merges with its neighbour
                e2s(doc.cursor_at(0).insert_formatted_text(&w, &TextFormat::default()))?;
                cur = w + &cur;
            }
            1 => {
                log.say("undo");
                e2s(doc.undo())?;
                if let Some(p) = undo.pop() { redo.push(std::mem::replace(&mut cur, p)); }
            }
            2 => {
                log.say("redo");
                e2s(doc.redo())?;
                if let Some(p) = redo.pop() { undo.push(std::mem::replace(&mut cur, p)); }
            }
            3 => {
                log.say("edit block with two insertions");
                let c = doc.cursor_at(0);
                c.begin_edit_block();
                e2s(c.insert_formatted_text("x", &TextFormat::default()))?;
                e2s(c.insert_formatted_text("y", &TextFormat::default()))?;
                c.end_edit_block();
                undo.push(cur.clone()); redo.clear();
                cur = format!("xy{cur}");
            }
            4 => {
                log.say("nested edit blocks");
                let c = doc.cursor_at(0);
                c.begin_edit_block();
                e2s(c.insert_formatted_text("p", &TextFormat::default()))?;
                c.begin_edit_block();
                e2s(c.insert_formatted_text("q", &TextFormat::default()))?;
                c.end_edit_block();
                e2s(c.insert_formatted_text("r", &TextFormat::default()))?;
                c.end_edit_block();
                undo.push(cur.clone()); redo.clear();
                cur = format!("pqr{cur}");
            }
            _ => {
                log.say("clear undo history");
                doc.clear_undo_redo();
                undo.clear(); redo.clear();
            }
        }
        let t = e2s(doc.to_plain_text())?;
        ensure!(t == cur, "text is {t:?}, expected {cur:?}");
        ensure!(doc.can_undo() == !undo.is_empty(), "can_undo is {}, expected {}", doc.can_undo(), !undo.is_empty());
        ensure!(doc.can_redo() == !redo.is_empty(), "can_redo is {}, expected {}", doc.can_redo(), !redo.is_empty());
    }
    log.nontrivial = true;
    Ok(())
}
