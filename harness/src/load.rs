//! C11 loading plain text. C17 title, direction, wrapping, resources.
use crate::c01::{nth_over, start};
use crate::ensure;
use crate::nav::check_positions;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::result::Result;
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

fn normal(t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\r' { if c.get(i + 1) == Some(&'\n') { i += 1; } o.push('\n'); } else { o.push(c[i]); }
        i += 1;
    }
    o
}

/// Load `t` into `doc` (with live cursors) and check everything the property promises.
fn load(doc: &TextDocument, t: &str, clear: bool, cursors: &[TextCursor]) -> Result<(), String> {
    doc.poll_events();
    if clear { e2s(doc.clear())?; } else { e2s(doc.set_plain_text(t))?; }
    let want = if clear { String::new() } else { normal(t) };
    let ev = doc.poll_events();
    ensure!(ev.iter().filter(|e| matches!(e, DocumentEvent::DocumentReset)).count() == 1, "events after loading: {ev:?}");
    let got = e2s(doc.to_plain_text())?;
    ensure!(got == want, "text read back is {got:?}, expected {want:?}");
    let v = view(doc);
    let lines: Vec<String> = want.split('\n').map(|s| s.to_string()).collect();
    ensure!(v.paras.iter().map(|p| p.text()).collect::<Vec<_>>() == lines, "paragraphs are {}", v.short());
    ensure!(v.paras.iter().all(|p| p.bf == BlockFormat::default() && p.list.is_none() && p.chars.iter().all(|c| c.1 == TextFormat::default())), "formatting after loading: {}", v.short());
    ensure!(!doc.can_undo() && !doc.can_redo(), "history survives the load");
    e2s(doc.undo())?; e2s(doc.redo())?;
    ensure!(view(doc) == v, "undo or redo after the load gives {}", view(doc).short());
    for c in cursors { ensure!(c.position() <= v.max_pos() && c.anchor() <= v.max_pos(), "a cursor is at {}/{} of {}", c.position(), c.anchor(), v.max_pos()); }
    check_positions(doc)
}

/// Every text of at most 5 symbols, loaded into a fresh document and over a worked-on one.
pub fn enum_load(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let t = nth_over(&['a', 'é', ' ', '\n', '\r'], i);
    log.say(format!("load {t:?}"));
    log.nontrivial = !t.is_empty();
    load(&TextDocument::new(), &t, false, &[])?;
    let doc = start(r, log, false)?;
    let v = view(&doc);
    for k in [6u8, 8, 10, 0] { let _ = gen_op(r, &v, &[k]).apply(&doc); }
    let cs = [doc.cursor_at(view(&doc).max_pos()), doc.cursor_at(1)];
    load(&doc, &t, false, &cs)
}

const ODD: [&str; 14] = ["a", "b", " ", "\n", "\r\n", "\r", "é", "e\u{301}", "👨‍👩‍👧", "\u{2028}", "\u{85}", "\u{feff}", "\t", "\u{b}"];
pub fn rnd_load(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 3 == 0)?;
    let mut cs = vec![];
    for _ in 0..r.below(8) {
        let v = view(&doc);
        let op = gen_op(r, &v, ALL_KINDS);
        log.say(format!("{op:?}"));
        let _ = op.apply(&doc);
        if r.chance(1, 2) { cs.push(doc.cursor_at(r.below(v.max_pos() + 1))); }
        if r.chance(1, 8) { let _ = doc.undo(); }
    }
    for _ in 0..2 {
        let t: String = (0..r.below(14)).map(|_| *r.pick(&ODD)).collect();
        let clear = r.chance(1, 6);
        log.say(format!("load {t:?} (clear: {clear})"));
        log.nontrivial = true;
        load(&doc, &t, clear, &cs)?;
        let v = view(&doc);
        // the loaded document is an ordinary one: an edit and its undo work
        let op = gen_op(r, &v, TEXT_KINDS);
        log.say(format!("{op:?}"));
        let want = op.spec(&v).unwrap().0;
        let _ = op.apply(&doc);
        ensure!(view(&doc).text() == want.text(), "after loading and one edit the text is {:?}, expected {:?}", view(&doc).text(), want.text());
        while doc.can_undo() { e2s(doc.undo())?; }
        ensure!(view(&doc) == v, "undoing everything after the load gives {}", view(&doc).short());
    }
    Ok(())
}

// ── C17 ──────────────────────────────────────────────────────────

#[derive(Clone, PartialEq, Debug)]
struct Meta { title: String, dir: TextDirection, wrap: WrapMode, res: Vec<(String, Vec<u8>)> }
fn meta_is(doc: &TextDocument, m: &Meta) -> Result<(), String> {
    ensure!(doc.title() == m.title, "title is {:?}, expected {:?}", doc.title(), m.title);
    ensure!(doc.text_direction() == m.dir, "direction is {:?}, expected {:?}", doc.text_direction(), m.dir);
    ensure!(doc.default_wrap_mode() == m.wrap, "wrapping is {:?}, expected {:?}", doc.default_wrap_mode(), m.wrap);
    for (n, d) in &m.res {
        let got = e2s(doc.resource(n))?;
        ensure!(got.as_ref() == Some(d), "resource {n:?} reads {:?}, expected {:?}", got.map(|g| g.len()), d.len());
    }
    for n in ["absent", "img", "Img", "img2", "", "é"] {
        if !m.res.iter().any(|x| x.0 == n) { let got = e2s(doc.resource(n))?; ensure!(got.is_none(), "resource {n:?} was never added"); }
    }
    Ok(())
}
pub fn rnd_meta(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, false)?;
    let first = Meta { title: doc.title(), dir: doc.text_direction(), wrap: doc.default_wrap_mode(), res: vec![] };
    let mut m = Meta { title: doc.title(), dir: doc.text_direction(), wrap: doc.default_wrap_mode(), res: vec![] };
    log.nontrivial = true;
    for _ in 0..4 + i % 10 {
        let v = view(&doc);
        match r.below(10) {
            0 | 1 => { let t = gtext(r, 0, 6); log.say(format!("title {t:?}")); e2s(doc.set_title(&t))?; m.title = t; }
            2 => { let d = r.pick(&[TextDirection::LeftToRight, TextDirection::RightToLeft]).clone(); log.say(format!("{d:?}")); e2s(doc.set_text_direction(d.clone()))?; m.dir = d; }
            3 => { let w = r.pick(&[WrapMode::NoWrap, WrapMode::WordWrap, WrapMode::WrapAnywhere, WrapMode::WrapAtWordBoundaryOrAnywhere]).clone(); log.say(format!("{w:?}")); e2s(doc.set_default_wrap_mode(w.clone()))?; m.wrap = w; }
            4 | 5 => {
                let n = r.pick(&["img", "Img", "img2", "", "é"]).to_string();
                let d: Vec<u8> = (0..r.below(20)).map(|_| r.below(256) as u8).collect();
                log.say(format!("resource {n:?} = {d:?}"));
                e2s(doc.add_resource(ResourceType::Image, &n, "image/png", &d))?;
                m.res.retain(|x| x.0 != n);
                m.res.push((n, d));
            }
            _ => {
                let op = gen_op(r, &v, ALL_KINDS);
                log.say(format!("{op:?}"));
                let _ = op.apply(&doc);
                meta_is(&doc, &m)?;
                continue;
            }
        }
        meta_is(&doc, &m)?;
        ensure!(view(&doc) == v, "the document became {}", view(&doc).short());
        if r.chance(1, 4) {
            log.say("undo, redo");
            e2s(doc.undo())?;
            e2s(doc.redo())?;
            meta_is(&doc, &m)?;
        }
    }
    log.say("undo everything");
    while doc.can_undo() { e2s(doc.undo())?; }
    meta_is(&doc, &first)?;
    log.say("redo everything");
    while doc.can_redo() { e2s(doc.redo())?; }
    meta_is(&doc, &m)
}
