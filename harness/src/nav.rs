//! C05 positions and lookups, C06 live cursors, C07 cursor movement, C08 reads and failures leave no trace.
use crate::c01::{nth_over, start};
use crate::ensure;
use crate::model::caret_para;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use crate::words;
use std::result::Result;
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

// ── C05 ──────────────────────────────────────────────────────────

/// Every lookup of the document agrees with its paragraphs laid end to end.
pub fn check_positions(doc: &TextDocument) -> Result<(), String> {
    let v = view(doc);
    let max = v.max_pos();
    let n = v.paras.len();
    let blocks = doc.blocks();
    let ids: Vec<usize> = blocks.iter().map(|b| b.id()).collect();
    let text: Vec<char> = v.text().chars().collect();
    for (i, b) in blocks.iter().enumerate() {
        let (s, p) = (v.start_of(i), &v.paras[i]);
        ensure!(b.position() == s, "paragraph {i} is at position {}, expected {s}", b.position());
        ensure!(b.length() == p.len(), "paragraph {i} has length {}, expected {}", b.length(), p.len());
        ensure!(b.text() == p.text(), "paragraph {i} reads {:?}, its snapshot {:?}", b.text(), p.text());
        ensure!(b.block_number() == i, "paragraph {i} has number {}", b.block_number());
        ensure!(b.is_valid() && b.is_empty() == p.chars.is_empty(), "paragraph {i} validity");
        ensure!(b.next().map(|x| x.id()) == ids.get(i + 1).copied(), "next of paragraph {i}");
        ensure!(b.previous().map(|x| x.id()) == i.checked_sub(1).map(|j| ids[j]), "previous of paragraph {i}");
        ensure!(doc.block_by_number(i).map(|x| x.id()) == Some(ids[i]), "paragraph number {i} not found by number");
        ensure!(doc.block_by_id(ids[i]).map(|x| x.position()) == Some(s), "paragraph {i} not found by id");
        let sn = b.snapshot();
        ensure!(sn.position == s && sn.length == p.len() && sn.text == p.text() && sn.block_id == ids[i], "snapshot of paragraph {i} is at {} with length {}", sn.position, sn.length);
        ensure!(b.block_format() == p.bf, "format of paragraph {i} is {}, snapshot says {}", bf_short(&b.block_format()), bf_short(&p.bf));
        for (o, c) in p.chars.iter().enumerate() {
            let f = b.char_format_at(o);
            ensure!(f.as_ref() == Some(&c.1), "format read at {i}:{o} is {:?}, snapshot says {}", f.map(|f| fmt_short(&f)), fmt_short(&c.1));
        }
    }
    ensure!(doc.block_by_number(n).is_none(), "a paragraph number past the end resolves");
    let flow: Vec<FlowElementSnapshot> = doc.snapshot_flow().elements;
    let fb: Vec<(usize, usize, String)> = flow.iter().filter_map(|e| match e { FlowElementSnapshot::Block(b) => Some((b.position, b.block_id, b.text.clone())), _ => None }).collect();
    ensure!(fb.len() == n, "flow snapshot has {} paragraphs, expected {n}", fb.len());
    for (i, b) in fb.iter().enumerate() {
        ensure!(b.0 == v.start_of(i) && b.1 == ids[i] && b.2 == v.paras[i].text(), "flow snapshot of paragraph {i}: {:?}", b);
    }
    for pos in 0..=max {
        let (lp, _) = v.locate(pos);
        let q = caret_para(&v, pos);
        let info = e2s(doc.block_at(pos))?;
        ensure!(info.block_id == ids[q] && info.block_number == q && info.start == v.start_of(q) && info.length == v.paras[q].len(),
            "position {pos} resolves to paragraph {} at {} with length {}, expected {q} at {}", info.block_number, info.start, info.length, v.start_of(q));
        ensure!(doc.block_at_position(pos).map(|b| b.id()) == Some(ids[q]), "position {pos} resolves to another paragraph handle");
        ensure!(e2s(doc.block_format_at(pos))? == v.paras[q].bf, "paragraph format at position {pos}");
        let sn = doc.snapshot_block_at_position(pos);
        ensure!(sn.as_ref().map(|s| (s.block_id, s.position)) == Some((ids[lp], v.start_of(lp))), "snapshot at position {pos} is of {:?}, expected paragraph {lp}", sn.map(|s| s.position));
        let off = pos - v.start_of(lp);
        if lp == q && off < v.paras[q].len() {
            let e = doc.find_element_at_position(pos);
            ensure!(e.map(|e| e.1 + e.2) == Some(pos), "run at position {pos} is {e:?}");
        }
        let c = doc.cursor_at(pos);
        if c.position() == pos {
            ensure!(c.block_number() == q, "cursor at {pos} is in paragraph {}, expected {q}", c.block_number());
            if lp == q {
                ensure!(c.position_in_block() == off, "cursor at {pos} has column {}, expected {off}", c.position_in_block());
                ensure!(c.at_block_start() == (off == 0), "at_block_start at {pos}");
                ensure!(c.at_block_end() == (off == v.paras[q].len()), "at_block_end at {pos}");
            }
            ensure!(c.at_start() == (pos == 0) && c.at_end() == (pos == max), "at_start/at_end at {pos}");
        }
        for len in 0..=(max - pos) {
            let t = e2s(doc.text_at(pos, len))?;
            let want: String = text[pos..pos + len].iter().collect();
            ensure!(t == want, "text at {pos} for {len} is {t:?}, expected {want:?}");
            let r: Vec<usize> = doc.blocks_in_range(pos, len).iter().map(|b| b.position()).collect();
            let want: Vec<usize> = (0..n).filter(|i| {
                let (s, e) = (v.start_of(*i), v.start_of(*i) + v.paras[*i].len());
                if len == 0 { s <= pos && pos < e } else { s < pos + len && e > pos }
            }).map(|i| v.start_of(i)).collect();
            ensure!(r == want, "paragraphs in {pos}+{len} start at {r:?}, expected {want:?}");
        }
    }
    let st = doc.stats();
    let chars: usize = v.paras.iter().map(|p| p.len()).sum();
    let wc: usize = v.paras.iter().map(|p| p.text().split_whitespace().count()).sum();
    let lists = { let mut k: Vec<usize> = v.paras.iter().filter_map(|p| p.list.as_ref().map(|l| l.key)).collect(); k.sort(); k.dedup(); k.len() };
    ensure!(st.character_count == chars && doc.character_count() == chars, "character count is {}, expected {chars}", st.character_count);
    ensure!(st.block_count == n && doc.block_count() == n, "paragraph count is {}, expected {n}", st.block_count);
    ensure!(st.word_count == wc, "word count is {}, expected {wc}", st.word_count);
    ensure!(st.list_count >= lists && st.table_count == 0 && st.image_count == 0, "counts of lists/tables/images are {}/{}/{}", st.list_count, st.table_count, st.image_count);
    ensure!(doc.is_empty() == (chars == 0), "is_empty");
    let plain = e2s(doc.to_plain_text())?;
    ensure!(plain == v.text(), "plain text is {plain:?}, paragraphs read {:?}", v.text());
    Ok(())
}

pub fn enum_positions(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = nth_over(&['a', ' ', '😀', '\n'], i);
    log.say(format!("document {d:?}"));
    log.nontrivial = true;
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&d))?;
    ensure!(view(&doc).text() == d, "paragraphs read {:?}", view(&doc).text());
    check_positions(&doc)
}
pub fn rnd_positions(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 4 == 0)?;
    check_positions(&doc)?;
    for _ in 0..2 + i % 7 {
        let v = view(&doc);
        if r.chance(1, 6) && doc.can_undo() { log.say("undo"); e2s(doc.undo())?; }
        else if r.chance(1, 6) && doc.can_redo() { log.say("redo"); e2s(doc.redo())?; }
        else {
            let op = gen_op(r, &v, ALL_KINDS);
            log.say(format!("{op:?}"));
            let _ = op.apply(&doc);
        }
        if view(&doc) != v { log.nontrivial = true; }
        check_positions(&doc)?;
    }
    Ok(())
}

// ── C06 ──────────────────────────────────────────────────────────

/// Where an offset may be after the region [s, s+rem) became [s, s+add).
fn allowed(o: usize, s: usize, rem: usize, add: usize) -> (usize, usize) {
    if o <= s { (o, o) } else if o >= s + rem && (o > s + rem || rem == 0) { (o - rem + add, o - rem + add) } else { (s, s + add) }
}
/// The smallest region that covers every way of seeing the change as one replacement.
fn diff_region(a: &str, b: &str) -> (usize, usize, usize) {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let m = a.len().min(b.len());
    let p = (0..m).take_while(|i| a[*i] == b[*i]).count();
    let s = (0..m).take_while(|i| a[a.len() - 1 - i] == b[b.len() - 1 - i]).count();
    // prefix-first and suffix-first differ in repetitive text: take the union
    let lo = p.min(m - s.min(m));
    let suf = s.min(m - p);
    (lo, a.len() - suf - lo, b.len() - suf - lo)
}

pub fn rnd_cursors(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 5 == 0)?;
    let v = view(&doc);
    let cs: Vec<TextCursor> = (0..4).map(|_| {
        let c = doc.cursor_at(words::snap(&v, r.below(v.max_pos() + 1)));
        if r.chance(1, 2) { c.set_position(words::snap(&v, r.below(v.max_pos() + 1)), MoveMode::KeepAnchor); }
        c
    }).collect();
    log.say(format!("cursors {:?}", cs.iter().map(|c| (c.position(), c.anchor())).collect::<Vec<_>>()));
    for _ in 0..2 + i % 8 {
        let v = view(&doc);
        let before: Vec<(usize, usize)> = cs.iter().map(|c| (c.position(), c.anchor())).collect();
        let mut exact = None;
        if r.chance(1, 6) && doc.can_undo() { log.say("undo"); e2s(doc.undo())?; }
        else if r.chance(1, 6) && doc.can_redo() { log.say("redo"); e2s(doc.redo())?; }
        else {
            let op = gen_op(r, &v, &[0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 10, 15, 16]);
            let spec = op.spec(&v);
            if let (Op::Paste { .. }, None) = (&op, &spec) { continue; }
            log.say(format!("{op:?}"));
            if op.apply(&doc).is_ok() {
                if let Some((_, Some(e))) = spec { exact = Some(e); }
            }
        }
        let w = view(&doc);
        let (s, rem, add) = exact.unwrap_or_else(|| diff_region(&v.text(), &w.text()));
        if rem + add > 0 { log.nontrivial = true; }
        for (k, c) in cs.iter().enumerate() {
            for (name, o, n) in [("position", before[k].0, c.position()), ("anchor", before[k].1, c.anchor())] {
                ensure!(n <= w.max_pos(), "cursor {k}: {name} {n} is past the end {}", w.max_pos());
                let (lo, hi) = allowed(o, s, rem, add);
                ensure!(lo <= n && n <= hi, "cursor {k}: {name} went from {o} to {n} when {rem} characters at {s} became {add}; expected {lo}..={hi}");
            }
        }
    }
    Ok(())
}
/// Every document of at most 4 symbols, one observing cursor at every place, every plain edit.
pub fn enum_cursors(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = crate::c01::nth_doc(i / (25 * 5));
    let n = d.chars().count();
    let (p, a, k) = (((i / 5) % 25 / 5) as usize, ((i / 5) % 25 % 5) as usize, i % 5);
    if p > n || a > n { return Ok(()); }
    let op = match k {
        0 => Op::Ins { p, a, t: "xß".into() },
        1 => Op::Split { p, a },
        2 => Op::Del { p, a },
        3 => Op::PastePlain { p, a, t: "u\nv".into() },
        _ if p == a => Op::DelPrev { p },
        _ => return Ok(()),
    };
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&d))?;
    let cs: Vec<TextCursor> = (0..=n).map(|o| doc.cursor_at(o)).collect();
    let v = view(&doc);
    let (_, e) = op.spec(&v).unwrap();
    let (s, rem, add) = e.unwrap();
    log.say(format!("document {d:?}"));
    log.say(format!("{op:?}"));
    log.nontrivial = rem + add > 0;
    e2s(op.apply(&doc))?;
    for (o, c) in cs.iter().enumerate() {
        let (lo, hi) = allowed(o, s, rem, add);
        ensure!(lo <= c.position() && c.position() <= hi && c.anchor() == c.position(), "cursor at {o} went to {}/{} when {rem} characters at {s} became {add}; expected {lo}..={hi}", c.position(), c.anchor());
    }
    if doc.can_undo() {
        let b: Vec<usize> = cs.iter().map(|c| c.position()).collect();
        let w = view(&doc).text();
        e2s(doc.undo())?;
        let x = view(&doc).text();
        let (s, rem, add) = diff_region(&w, &x);
        for (o, c) in b.iter().zip(&cs) {
            let (lo, hi) = allowed(*o, s, rem, add);
            ensure!(lo <= c.position() && c.position() <= hi, "after undo, cursor at {o} went to {} when {rem} characters at {s} became {add}; expected {lo}..={hi}", c.position());
        }
    }
    Ok(())
}

// ── C07 ──────────────────────────────────────────────────────────

const MOVES: [MoveOperation; 21] = [
    MoveOperation::NoMove, MoveOperation::Start, MoveOperation::End, MoveOperation::StartOfLine, MoveOperation::EndOfLine,
    MoveOperation::StartOfBlock, MoveOperation::EndOfBlock, MoveOperation::StartOfWord, MoveOperation::EndOfWord,
    MoveOperation::PreviousBlock, MoveOperation::NextBlock, MoveOperation::PreviousCharacter, MoveOperation::NextCharacter,
    MoveOperation::PreviousWord, MoveOperation::NextWord, MoveOperation::Up, MoveOperation::Down, MoveOperation::Left,
    MoveOperation::Right, MoveOperation::WordLeft, MoveOperation::WordRight,
];
fn move_spec(v: &View, pos: usize, m: MoveOperation, n: usize) -> usize {
    use MoveOperation::*;
    let q = caret_para(v, pos);
    let (s, e) = (v.start_of(q), v.start_of(q) + v.paras[q].len());
    let t = match m {
        NoMove => pos,
        Start => 0,
        End => v.max_pos(),
        StartOfLine | StartOfBlock => s,
        EndOfLine | EndOfBlock => e,
        NextBlock | Down => (e + 1).min(v.max_pos()),
        PreviousBlock | Up => if q > 0 { v.start_of(q - 1) } else { 0 },
        NextCharacter | Right => (0..n).fold(pos, |p, _| words::next_grapheme(v, p)),
        PreviousCharacter | Left => (0..n).fold(pos, |p, _| words::prev_grapheme(v, p)),
        NextWord | EndOfWord | WordRight => words::all_words(v).into_iter().map(|w| w.1).find(|e| *e > pos).unwrap_or(v.max_pos()),
        PreviousWord | StartOfWord | WordLeft => words::all_words(v).into_iter().map(|w| w.0).filter(|s| *s < pos).next_back().unwrap_or(0),
    };
    words::snap(v, t)
}
fn check_moves(doc: &TextDocument, v: &View, pos: usize) -> Result<(), String> {
    for m in MOVES {
        for n in [1usize, 3] {
            let c = doc.cursor_at(pos);
            let start = c.position();
            ensure!(start == words::snap(v, pos), "a cursor at {pos} is placed at {start}, expected {}", words::snap(v, pos));
            let moved = c.move_position(m, MoveMode::MoveAnchor, n);
            let want = move_spec(v, start, m, n);
            ensure!(c.position() == want && c.anchor() == want, "{m:?} x{n} from {start} goes to {}/{}, expected {want}", c.position(), c.anchor());
            ensure!(moved == (want != start), "{m:?} from {start} to {want} reports moved={moved}");
            let c = doc.cursor_at(pos);
            c.move_position(m, MoveMode::KeepAnchor, n);
            ensure!(c.position() == want && c.anchor() == start, "{m:?} x{n} keeping the anchor from {start} goes to {}/{}, expected {want}/{start}", c.position(), c.anchor());
            ensure!(c.has_selection() == (want != start) && c.selection_start() == want.min(start) && c.selection_end() == want.max(start), "selection bounds after {m:?}");
            let text: Vec<char> = v.text().chars().collect();
            let sel: String = text[want.min(start)..want.max(start)].iter().collect();
            let got = e2s(c.selected_text())?;
            ensure!(got == sel, "selected text is {got:?}, expected {sel:?}");
        }
    }
    let c = doc.cursor_at(pos);
    let start = c.position();
    c.select(SelectionType::Document);
    ensure!((c.anchor(), c.position()) == (0, v.max_pos()), "selecting the document gives {}..{}", c.anchor(), c.position());
    let q = caret_para(v, start);
    for s in [SelectionType::BlockUnderCursor, SelectionType::LineUnderCursor] {
        let c = doc.cursor_at(pos);
        c.select(s);
        ensure!((c.anchor(), c.position()) == (v.start_of(q), v.start_of(q) + v.paras[q].len()), "selecting the paragraph at {start} gives {}..{}", c.anchor(), c.position());
    }
    let c = doc.cursor_at(pos);
    c.select(SelectionType::WordUnderCursor);
    let ws = words::all_words(v);
    match ws.iter().find(|w| w.0 <= start && start < w.1) {
        Some(w) => ensure!((c.anchor(), c.position()) == *w, "selecting the word at {start} gives {}..{}, expected {w:?}", c.anchor(), c.position()),
        None => ensure!(c.anchor() == c.position() || ws.contains(&(c.anchor(), c.position())), "selecting the word at {start} gives {}..{}, which is no word", c.anchor(), c.position()),
    }
    c.clear_selection();
    ensure!(!c.has_selection(), "clear_selection left a selection");
    // any integer is a valid request
    for far in [v.max_pos() + 1, v.max_pos() + 1000, usize::MAX / 4] {
        let c = doc.cursor_at(pos);
        c.set_position(far, MoveMode::MoveAnchor);
        ensure!(c.position() == v.max_pos(), "set_position({far}) goes to {}, the end is {}", c.position(), v.max_pos());
    }
    for to in 0..=v.max_pos() {
        let c = doc.cursor_at(pos);
        c.set_position(to, MoveMode::KeepAnchor);
        ensure!(c.position() == words::snap(v, to), "set_position({to}) goes to {}, expected {}", c.position(), words::snap(v, to));
    }
    Ok(())
}
pub fn enum_moves(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = nth_over(&['a', ' ', '_', '\u{301}', '\n'], i);
    log.say(format!("document {d:?}"));
    log.nontrivial = true;
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&d))?;
    let v = view(&doc);
    for pos in 0..=v.max_pos() { check_moves(&doc, &v, pos)?; }
    Ok(())
}
const WORDISH: [&str; 40] = ["a", "Z", "7", "42", " ", "  ", "\n", "3.14", "1,000", "can't", "e.g.", "x:y", "don\u{2019}t", "_", "_9", "-", "\u{ad}", "\u{a0}", "\t", "\u{200b}", "\u{200d}", "½", "①", "ª", "²", "Ⅳ",
    "カナ", "日本", "ひら", "שלום", "ק\"כ", "ก็", "\u{1100}\u{1161}", "한", "ß", "e\u{301}", "👍🏽", "🇫🇷🇯🇵", "#1", "٣"];
pub fn rnd_words(r: &mut Rng, _i: u64, log: &mut Log) -> Result<(), String> {
    let d: String = (0..r.range(1, 7)).map(|_| *r.pick(&WORDISH)).collect();
    log.say(format!("document {d:?}"));
    log.nontrivial = true;
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&d))?;
    let v = view(&doc);
    for pos in 0..=v.max_pos() { check_moves(&doc, &v, pos)?; }
    Ok(())
}
pub fn rnd_moves(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    if i % 64 == 0 {
        // words far apart, in one paragraph and across many
        let n = 60 + r.below(60);
        let gap: String = (0..n).map(|_| if r.chance(1, 8) { '\n' } else { *r.pick(&[' ', '.', '_', '-']) }).collect();
        let d = format!("ab{gap}{}", if r.chance(1, 2) { "cd" } else { "" });
        log.say(format!("document {d:?}"));
        log.nontrivial = true;
        let doc = TextDocument::new();
        e2s(doc.set_plain_text(&d))?;
        let v = view(&doc);
        for pos in [0, 1, 2, 3, 5, n, n + 2, v.max_pos()] { check_moves(&doc, &v, pos.min(v.max_pos()))?; }
        return Ok(());
    }
    let doc = start(r, log, i % 4 != 0)?;
    for _ in 0..i % 4 {
        let op = gen_op(r, &view(&doc), TEXT_KINDS);
        log.say(format!("{op:?}"));
        let _ = op.apply(&doc);
    }
    log.nontrivial = true;
    let v = view(&doc);
    for pos in 0..=v.max_pos() { check_moves(&doc, &v, pos)?; }
    Ok(())
}

// ── C08 ──────────────────────────────────────────────────────────

#[derive(PartialEq)]
struct Trace { v: View, text: String, undo: bool, redo: bool, modified: bool, stats: DocumentStats, html: String, md: String, title: String }
fn trace(doc: &TextDocument) -> Trace {
    Trace { v: view(doc), text: doc.to_plain_text().unwrap_or_default(), undo: doc.can_undo(), redo: doc.can_redo(), modified: doc.is_modified(), stats: doc.stats(),
        html: doc.to_html().unwrap_or_default(), md: doc.to_markdown().unwrap_or_default(), title: doc.title() }
}
pub fn rnd_quiet(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 4 == 0)?;
    for _ in 0..i % 6 {
        let op = gen_op(r, &view(&doc), ALL_KINDS);
        log.say(format!("{op:?}"));
        let _ = op.apply(&doc);
    }
    if r.chance(1, 2) && doc.can_undo() { log.say("undo"); e2s(doc.undo())?; }
    if r.chance(1, 3) { doc.set_modified(false); }
    let t0 = trace(&doc);
    doc.poll_events();
    let v = &t0.v;
    let (len, p) = (v.max_pos(), words::snap(v, r.below(v.max_pos() + 1)));
    let q = words::snap(v, r.below(len + 1));
    let c = doc.cursor_at(p);
    c.set_position(q, MoveMode::KeepAnchor);
    let far = len + 1 + r.below(50);
    let mut failed = true;
    let mut events_ok = false;
    match r.below(22) {
        0 => { log.say("read everything"); let _ = (doc.flow(), doc.snapshot_flow(), doc.blocks(), c.selected_text(), c.selection(), c.char_format(), c.block_format(), doc.text_at(p, len), doc.block_at(far), doc.block_at_position(far), doc.blocks_in_range(far, 3), doc.find_element_at_position(far), doc.snapshot_block_at_position(far)); }
        1 => { log.say("find"); let _ = doc.find_all(&text(r, 0, 2), &FindOptions::default()); let _ = doc.find(&text(r, 0, 2), far, &FindOptions { search_backward: true, ..Default::default() }); }
        2 => { log.say("find with a broken pattern"); failed = doc.find_all("(", &FindOptions { use_regex: true, ..Default::default() }).is_err(); }
        3 => { log.say("replace with a broken pattern"); failed = doc.replace_text("(", "x", true, &FindOptions { use_regex: true, ..Default::default() }).is_err(); }
        4 => { log.say("move around"); for m in MOVES { c.move_position(m, MoveMode::KeepAnchor, 2); } c.select(SelectionType::WordUnderCursor); }
        5 => { log.say("delete forward at the end"); let c = doc.cursor_at(len); events_ok = true; let _ = c.delete_char(); }
        6 => { log.say("delete backward at the start"); let c = doc.cursor_at(0); events_ok = true; let _ = c.delete_previous_char(); }
        7 => { log.say("list format outside a list"); let c = doc.cursor_at(p); if v.paras[crate::model::caret_para(v, p)].list.is_some() { return Ok(()); } failed = c.set_current_list_format(&ListFormat::default()).is_err(); }
        8 => { log.say("leave a list outside a list"); let c = doc.cursor_at(p); if v.paras[crate::model::caret_para(v, p)].list.is_some() { return Ok(()); } events_ok = true; let _ = c.remove_current_block_from_list(); return same(&doc, &t0, "leaving a list outside a list", true, false); }
        9 => { log.say("unknown list"); failed = c.add_current_block_to_list(987_654).is_err(); }
        10 => { log.say("unknown list format"); failed = c.set_list_format(987_654, &ListFormat { style: Some(ListStyle::Disc), ..Default::default() }).is_err(); }
        11 => { log.say("unknown block"); failed = c.remove_block_from_list(987_654).is_err(); }
        12 => { log.say("unknown table"); failed = c.insert_table_row(987_654, 0).is_err() && c.remove_table(987_654).is_err() && c.remove_table_column(987_654, 0).is_err() && c.merge_table_cells(987_654, 0, 0, 1, 1).is_err(); }
        13 => { log.say("table commands outside a table"); failed = c.insert_row_above().is_err() && c.remove_current_column().is_err() && c.merge_selected_cells().is_err() && c.remove_current_table().is_err() && c.split_current_cell(1, 1).is_err(); }
        14 => { log.say("empty fragment"); failed = c.insert_fragment(&DocumentFragment::new()).is_err(); }
        15 => { log.say("search text that is absent"); let n = e2s(doc.replace_text("zzzqqq", "y", true, &FindOptions::default()))?; ensure!(n == 0, "replaced {n} absent matches"); return same(&doc, &t0, "replacing absent text", true, true); }
        16 => { log.say("exports"); let _ = (doc.to_html(), doc.to_markdown(), doc.to_latex("article", true), doc.to_plain_text(), c.selection().to_html(), c.selection().to_markdown()); }
        17 => { log.say("zero-sized table"); failed = c.insert_table(0, 0).is_err(); if !failed { return Ok(()); } }
        18 => { log.say("absent item"); failed = c.remove_list_item(987_654, 0).is_err(); }
        19 => { log.say("frame"); failed = c.set_frame_format(987_654, &FrameFormat::default()).is_err(); }
        20 => { log.say("remove an empty selection"); let c = doc.cursor_at(p); events_ok = true; let s = e2s(c.remove_selected_text())?; ensure!(s.is_empty(), "removed {s:?} without a selection"); }
        _ => { log.say("undo then redo"); if doc.can_undo() { e2s(doc.undo())?; if doc.can_redo() { e2s(doc.redo())?; } return same(&doc, &t0, "undo then redo", true, true); } }
    }
    ensure!(failed, "the operation should have been refused");
    log.nontrivial = true;
    same(&doc, &t0, "the operation", events_ok, true)
}
fn same(doc: &TextDocument, t0: &Trace, what: &str, events_ok: bool, flags: bool) -> Result<(), String> {
    let t1 = trace(doc);
    ensure!(t1.v == t0.v, "{what} changed the document from {} to {}", t0.v.short(), t1.v.short());
    ensure!(t1.text == t0.text && t1.stats == t0.stats && t1.html == t0.html && t1.md == t0.md && t1.title == t0.title, "{what} changed an export or a count");
    if flags && !events_ok { ensure!(t1.modified == t0.modified && t1.undo == t0.undo && t1.redo == t0.redo, "{what} changed modified/undo/redo from {:?} to {:?}", (t0.modified, t0.undo, t0.redo), (t1.modified, t1.undo, t1.redo)); }
    let ev: Vec<DocumentEvent> = doc.poll_events();
    ensure!(events_ok || ev.is_empty(), "{what} reported {ev:?}");
    Ok(())
}
