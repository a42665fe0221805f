//! C01: text editing operations are exact splices. C02: formatting follows the text.
use crate::ensure;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use text_document::*;
use std::result::Result;

pub const SYM: [char; 3] = ['a', 'é', '\n'];
/// The i-th document over an alphabet, shortest first.
pub fn nth_over(sym: &[char], mut i: u64) -> String {
    let n = sym.len() as u64;
    let mut len = 0u32;
    while i >= n.pow(len) { i -= n.pow(len); len += 1; }
    (0..len).map(|_| { let c = sym[(i % n) as usize]; i /= n; c }).collect()
}
pub fn nth_doc(i: u64) -> String { nth_over(&SYM, i) }
pub const DOCS4: u64 = 1 + 3 + 9 + 27 + 81;

fn splice(t: &str, lo: usize, hi: usize, ins: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    c[..lo].iter().collect::<String>() + ins + &c[hi..].iter().collect::<String>()
}

/// Every document of at most 4 characters (two letters, one of them two bytes, and paragraph
/// breaks), every caret and anchor, every plain editing operation.
pub fn enum_edits(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = nth_doc(i / (25 * 7));
    let n = d.chars().count();
    let (p, a, k) = (((i / 7) % 25 / 5) as usize, ((i / 7) % 25 % 5) as usize, i % 7);
    if p > n || a > n { return Ok(()); }
    let doc = TextDocument::new();
    doc.set_plain_text(&d).map_err(|e| e.to_string())?;
    let (lo, hi) = (p.min(a), p.max(a));
    let (op, want, caret) = match k {
        0 => (Op::Ins { p, a, t: "xß".into() }, splice(&d, lo, hi, "xß"), lo + 2),
        1 => (Op::Split { p, a }, splice(&d, lo, hi, "\n"), lo + 1),
        2 => (Op::Del { p, a }, splice(&d, lo, hi, ""), if p == a { p } else { lo }),
        3 if p == a => (Op::DelNext { p }, splice(&d, p, (p + 1).min(n), ""), p),
        4 if p == a => (Op::DelPrev { p }, splice(&d, p.saturating_sub(1), p, ""), p.saturating_sub(1)),
        5 => (Op::InsFmt { p, a, t: "yy".into(), f: TextFormat { font_bold: Some(true), ..Default::default() } }, splice(&d, lo, hi, "yy"), lo + 2),
        6 => (Op::PastePlain { p, a, t: "u\né".into() }, splice(&d, lo, hi, "u\né"), lo + 3),
        _ => return Ok(()),
    };
    log.nontrivial = want != d;
    log.say(format!("document {d:?}"));
    log.say(format!("{op:?}"));
    let c = op.cursor(&doc);
    op.run(&doc, &c).map_err(|e| format!("operation failed: {e}"))?;
    let got = doc.to_plain_text().map_err(|e| e.to_string())?;
    ensure!(got == want, "text after the operation is {got:?}, expected {want:?}");
    let w = view(&doc);
    ensure!(w.text() == want, "paragraphs read {:?}, expected {want:?}", w.text());
    ensure!(c.position() == caret && c.anchor() == caret, "caret at {}/{}, expected {caret}", c.position(), c.anchor());
    if doc.can_undo() && want != d {
        doc.undo().map_err(|e| e.to_string())?;
        ensure!(view(&doc).text() == d, "undo leaves {:?}, expected {d:?}", view(&doc).text());
    }
    Ok(())
}

pub fn start(r: &mut Rng, log: &mut Log, graphemes: bool) -> Result<TextDocument, String> {
    let doc = TextDocument::new();
    let t = doc_text(r, graphemes);
    log.say(format!("document {t:?}"));
    doc.set_plain_text(&t).map_err(|e| e.to_string())?;
    Ok(doc)
}

fn sequence(r: &mut Rng, log: &mut Log, kinds: &[u8], steps: usize, full: bool) -> Result<(), String> {
    let g = r.chance(1, 4);
    let doc = start(r, log, g)?;
    for _ in 0..steps {
        let v = view(&doc);
        let op = gen_op(r, &v, kinds);
        log.say(format!("{op:?}"));
        let spec = op.spec(&v);
        let c = op.cursor(&doc);
        let before_sel = c.selected_text().ok();
        let res = op.run(&doc, &c);
        let w = view(&doc);
        if let Err(e) = res {
            ensure!(w == v, "{e}, yet the document changed from {} to {}", v.short(), w.short());
            continue;
        }
        if w != v { log.nontrivial = true; }
        let Some((x, edit)) = spec else { continue };
        ensure!(doc.to_plain_text().map_err(|e| e.to_string())? == x.text(), "text is {:?}, expected {:?}", doc.to_plain_text(), x.text());
        ensure!(w.text() == x.text(), "paragraphs read {:?}, expected {:?}", w.text(), x.text());
        if full { ensure!(w == x, "document is {}, expected {}", w.short(), x.short()); }
        if let Some((s, rem, add)) = edit {
            if rem + add > 0 { ensure!(c.position() == s + add && c.anchor() == s + add, "caret at {}/{}, expected {}", c.position(), c.anchor(), s + add); }
            if let (Op::Del { .. }, Some(t)) = (&op, before_sel) {
                let all: Vec<char> = v.text().chars().collect();
                let want: String = all[s..s + rem].iter().collect();
                ensure!(t == want, "selected text {t:?}, expected {want:?}");
            }
        }
    }
    Ok(())
}
pub fn rnd_edits(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    sequence(r, log, &[0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 9, 15, 16, 6, 8, 10], 3 + (i % 10) as usize, false)
}
pub fn rnd_formats(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    sequence(r, log, &[0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 6, 6, 7, 7, 8, 8, 9, 10, 12, 13, 14], 3 + (i % 10) as usize, true)
}

/// A paragraph of 5 characters whose formats follow every pattern over {plain, bold, italic};
/// every range gets one format operation or is replaced by typed text.
pub fn enum_formats(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    const T: [char; 5] = ['a', 'é', 'b', '日', 'c'];
    let (pat, rest) = (i / (36 * 6), i % (36 * 6));
    let (p, a, k) = ((rest / 6 / 6) as usize, (rest / 6 % 6) as usize, rest % 6);
    if p > a { return Ok(()); }
    let doc = TextDocument::new();
    let t: String = T.iter().collect();
    doc.set_plain_text(&t).map_err(|e| e.to_string())?;
    let mut x = pat;
    for j in 0..5 {
        let f = match x % 3 { 1 => Some(TextFormat { font_bold: Some(true), ..Default::default() }), 2 => Some(TextFormat { font_italic: Some(true), ..Default::default() }), _ => None };
        x /= 3;
        if let Some(f) = f { Op::SetFmt { p: j, a: j + 1, f }.apply(&doc).map_err(|e| e.to_string())?; }
    }
    let v = view(&doc);
    let op = match k {
        0 => Op::SetFmt { p, a, f: TextFormat { font_bold: Some(true), ..Default::default() } },
        1 => Op::SetFmt { p, a, f: TextFormat { font_bold: Some(false), font_weight: Some(700), ..Default::default() } },
        2 => Op::MergeFmt { p, a, f: TextFormat { font_italic: Some(true), ..Default::default() } },
        3 => Op::Ins { p, a, t: "ß".into() },
        4 => Op::Del { p, a },
        _ => Op::Split { p, a },
    };
    log.say(format!("document {}", v.short()));
    log.say(format!("{op:?}"));
    let (want, _) = op.spec(&v).unwrap();
    log.nontrivial = want != v;
    op.apply(&doc).map_err(|e| e.to_string())?;
    let w = view(&doc);
    ensure!(w == want, "document is {}, expected {}", w.short(), want.short());
    // reading the format under the caret agrees with the characters
    for (pi, para) in w.paras.iter().enumerate() {
        let b = doc.block_by_number(pi).ok_or_else(|| "paragraph missing".to_string())?;
        for (o, c) in para.chars.iter().enumerate() {
            ensure!(b.char_format_at(o).as_ref() == Some(&c.1), "format read at {pi}:{o} is {:?}, expected {:?}", b.char_format_at(o), c.1);
        }
    }
    Ok(())
}
