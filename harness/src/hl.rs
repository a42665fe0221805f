//! C13: highlights overlay what is shown, never what is stored.
use crate::c01::start;
use crate::ensure;
use crate::ops::*;
use crate::paste::tile;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::result::Result;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

/// A small language: 'x' opens and closes a comment that may span paragraphs; letters, spaces and
/// states carry overlapping highlights with different attributes. `rule` varies the language.
fn spans(rule: u64, text: &str, prev: i64) -> (Vec<(usize, usize, HighlightFormat)>, i64) {
    let h = HighlightFormat::default;
    let mut out = vec![];
    let inside = if rule % 3 == 1 { -7 } else { 1 }; // the state of a paragraph that ends inside an x..x: user states may be negative
    let mut st = (prev == inside) as i64;
    if st == 1 { out.push((0, 2, HighlightFormat { font_bold: Some(false), tooltip: Some("in".into()), ..h() })); }
    let mut open = if st == 1 { Some(0) } else { None };
    for (i, c) in text.chars().enumerate() {
        match c {
            'x' => {
                if st == 0 { st = 1; open = Some(i); } else {
                    out.push((open.take().unwrap(), i + 1, HighlightFormat { font_italic: Some(true), foreground_color: Some(Color::rgb(1, 2, 3)), ..h() }));
                    let l = out.last_mut().unwrap();
                    l.1 -= l.0;
                    st = 0;
                }
            }
            'a' => out.push((i, 1 + (rule % 2) as usize, HighlightFormat { font_bold: Some(true), letter_spacing: Some(3), font_point_size: Some(20), ..h() })),
            ' ' => out.push((i, 3, HighlightFormat { font_underline: Some(true), background_color: Some(Color::rgba(9, 8, 7, 6)), underline_color: Some(Color::rgb(5, 5, 5)), underline_style: Some(UnderlineStyle::DotLine), ..h() })),
            'b' => out.push((i, if rule % 3 == 0 { usize::MAX } else { 100 }, HighlightFormat { font_family: Some("Hl".into()), font_bold: Some(false), word_spacing: Some(4), font_weight: Some(300), ..h() })),
            'c' => out.push((i.saturating_sub(1), 2, HighlightFormat { font_overline: Some(true), font_strikeout: Some(true), vertical_alignment: Some(CharVerticalAlignment::SuperScript), tooltip: Some("c".into()), font_italic: Some(false), foreground_color: Some(Color::rgb(7, 7, 7)), ..h() })),
            '.' => out.push((i, 0, HighlightFormat { font_bold: Some(true), ..h() })),
            _ => {}
        }
    }
    if let Some(o) = open { out.push((o, 1000, HighlightFormat { font_italic: Some(true), foreground_color: Some(Color::rgb(1, 2, 3)), ..h() })); }
    (out, if rule % 5 == 4 && st == 0 && text.is_empty() { -1 } else if st == 1 { inside } else { 0 })
}
struct Lang { rule: Arc<AtomicU64> }
impl SyntaxHighlighter for Lang {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        let (s, st) = spans(self.rule.load(Ordering::Relaxed), text, ctx.previous_block_state());
        for (a, n, f) in s { ctx.set_format(a, n, f); }
        if st != -1 { ctx.set_current_block_state(st); }
    }
}
fn over(base: &TextFormat, h: &HighlightFormat) -> TextFormat {
    let mut o = base.clone();
    macro_rules! put { ($($x:ident),*) => { $( if h.$x.is_some() { o.$x = h.$x.clone(); } )* } }
    put!(foreground_color, background_color, underline_color, font_family, font_point_size, font_weight, font_bold, font_italic,
        font_underline, font_overline, font_strikeout, letter_spacing, word_spacing, underline_style, vertical_alignment, tooltip);
    o
}
fn shown(base: &View, rule: u64) -> View {
    let mut v = base.clone();
    let mut prev = -1;
    for p in v.paras.iter_mut() {
        let (s, st) = spans(rule, &p.text(), prev);
        for (a, n, f) in s { for (i, c) in p.chars.iter_mut().enumerate() { if i >= a && (i - a) < n { c.1 = over(&c.1, &f); } } }
        prev = st;
    }
    v
}

fn compare(doc: &TextDocument, twin: &TextDocument, rule: Option<u64>) -> Result<(), String> {
    let base = view(twin);
    let got = view(doc);
    let want = match rule { Some(k) => shown(&base, k), None => base.clone() };
    ensure!(got == want, "shown is {}, expected {}", got.short(), want.short());
    for (i, b) in doc.blocks().iter().enumerate() {
        tile(&b.fragments(), &b.text(), b.length(), &format!("paragraph {i}"))?;
        ensure!(b.snapshot().fragments == b.fragments(), "snapshot and handle of paragraph {i} show different fragments");
    }
    ensure!(e2s(doc.to_plain_text())? == e2s(twin.to_plain_text())?, "plain text with the highlighter is {:?}", doc.to_plain_text());
    ensure!(doc.can_undo() == twin.can_undo() && doc.can_redo() == twin.can_redo() && doc.is_modified() == twin.is_modified(), "history or modified flag differ");
    Ok(())
}
fn exports(doc: &TextDocument, twin: &TextDocument) -> Result<(), String> {
    ensure!(e2s(doc.to_html())? == e2s(twin.to_html())?, "highlights reach the HTML export: {:?}", doc.to_html());
    ensure!(e2s(doc.to_markdown())? == e2s(twin.to_markdown())?, "highlights reach the Markdown export: {:?}", doc.to_markdown());
    ensure!(e2s(doc.to_latex("article", false))? == e2s(twin.to_latex("article", false))?, "highlights reach the LaTeX export");
    ensure!(e2s(DocumentFragment::from_document(doc))?.to_html() == e2s(DocumentFragment::from_document(twin))?.to_html(), "highlights reach a copied fragment");
    Ok(())
}

pub fn rnd_highlight(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let mut r2 = r.clone();
    let doc = start(r, log, false)?;
    let twin = start(&mut r2, &mut Log { lines: vec![], nontrivial: false }, false)?;
    let rule = Arc::new(AtomicU64::new(r.next() % 30));
    let lang: Arc<dyn SyntaxHighlighter> = Arc::new(Lang { rule: rule.clone() });
    let mut on = true;
    log.say(format!("highlighter {}", rule.load(Ordering::Relaxed)));
    doc.set_syntax_highlighter(Some(lang.clone()));
    for _ in 0..3 + i % 10 {
        let k = rule.load(Ordering::Relaxed);
        compare(&doc, &twin, if on { Some(k) } else { None })?;
        match r.below(14) {
            0 if doc.can_undo() => { log.say("undo"); e2s(doc.undo())?; e2s(twin.undo())?; }
            1 if doc.can_redo() => { log.say("redo"); e2s(doc.redo())?; e2s(twin.redo())?; }
            2 => { log.say("rules change"); rule.store(k + 1, Ordering::Relaxed); doc.rehighlight(); }
            3 => {
                let n = r.below(doc.blocks().len());
                log.say(format!("re-highlight paragraph {n}"));
                doc.rehighlight_block(doc.blocks()[n].id());
            }
            4 => { on = !on; log.say(format!("highlighter {}", if on { "back" } else { "off" })); doc.set_syntax_highlighter(if on { Some(lang.clone()) } else { None }); }
            5 if r.chance(1, 3) => { let t = doc_text(r, false); log.say(format!("load {t:?}")); e2s(doc.set_plain_text(&t))?; e2s(twin.set_plain_text(&t))?; }
            _ => {
                let v = view(&twin);
                let op = gen_op(r, &v, &[0, 0, 0, 0, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 16]);
                // typing 'x' and removing it is what moves comments
                let op = match op { Op::Ins { p, a, .. } if r.chance(1, 2) => Op::Ins { p, a, t: "x".into() }, o => o };
                log.say(format!("{op:?}"));
                // an edit block each, so that steps never depend on how fast they follow one another
                let (c, d) = (doc.cursor(), twin.cursor());
                c.begin_edit_block(); d.begin_edit_block();
                let (a, b) = (op.apply(&doc), op.apply(&twin));
                c.end_edit_block(); d.end_edit_block();
                ensure!(a.is_ok() == b.is_ok(), "the operation gives {a:?} with and {b:?} without the highlighter");
                if view(&twin) != v { log.nontrivial = true; }
            }
        }
    }
    compare(&doc, &twin, if on { Some(rule.load(Ordering::Relaxed)) } else { None })?;
    exports(&doc, &twin)?;
    doc.set_syntax_highlighter(None);
    compare(&doc, &twin, None)
}

struct Fixed(Vec<(usize, usize, HighlightFormat)>);
impl SyntaxHighlighter for Fixed {
    fn highlight_block(&self, _t: &str, ctx: &mut HighlightContext) { for (a, n, f) in &self.0 { ctx.set_format(*a, *n, f.clone()); } }
}
/// Two highlights with every pair of ranges over a 4-character paragraph whose format pattern is
/// {plain, bold, plain, italic} and pairwise every attribute.
pub fn enum_overlay(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    const LENS: [usize; 6] = [0, 1, 2, 3, 4, usize::MAX];
    let (a, b, k) = ((i % 36) as usize, (i / 36 % 36) as usize, (i / 36 / 36) as usize);
    let attr = |k: usize, v: bool| {
        let mut f = HighlightFormat::default();
        match k % 16 {
            0 => f.foreground_color = Some(Color::rgb(v as u8, 1, 1)), 1 => f.background_color = Some(Color::rgb(v as u8, 2, 2)), 2 => f.underline_color = Some(Color::rgb(v as u8, 3, 3)),
            3 => f.font_family = Some(if v { "A" } else { "B" }.into()), 4 => f.font_point_size = Some(v as u32), 5 => f.font_weight = Some(v as u32), 6 => f.font_bold = Some(v), 7 => f.font_italic = Some(v),
            8 => f.font_underline = Some(v), 9 => f.font_overline = Some(v), 10 => f.font_strikeout = Some(v), 11 => f.letter_spacing = Some(v as i32), 12 => f.word_spacing = Some(v as i32),
            13 => f.underline_style = Some(if v { UnderlineStyle::WaveUnderline } else { UnderlineStyle::DashUnderline }), 14 => f.vertical_alignment = Some(if v { CharVerticalAlignment::SubScript } else { CharVerticalAlignment::Baseline }),
            _ => f.tooltip = Some(if v { "A" } else { "B" }.into()),
        }
        f
    };
    let doc = TextDocument::new();
    e2s(doc.set_plain_text("aé日b"))?;
    e2s(Op::SetFmt { p: 1, a: 2, f: TextFormat { font_bold: Some(true), ..Default::default() } }.apply(&doc))?;
    e2s(Op::SetFmt { p: 3, a: 4, f: TextFormat { font_italic: Some(true), font_family: Some("Base".into()), ..Default::default() } }.apply(&doc))?;
    let base = view(&doc);
    // same attribute twice in the first 16 rounds, neighbouring attributes in the next 16
    let s = vec![(a / 6, LENS[a % 6], attr(k, true)), (b / 6, LENS[b % 6], attr(if k < 16 { k } else { k + 1 }, false))];
    log.say(format!("highlights {s:?}"));
    log.nontrivial = true;
    let mut want = base.clone();
    for (st, n, f) in &s { for (i, c) in want.paras[0].chars.iter_mut().enumerate() { if i >= *st && i - st < *n { c.1 = over(&c.1, f); } } }
    doc.set_syntax_highlighter(Some(Arc::new(Fixed(s))));
    let got = view(&doc);
    ensure!(got == want, "shown is {}, expected {}", got.short(), want.short());
    let b = &doc.blocks()[0];
    tile(&b.fragments(), &b.text(), b.length(), "paragraph")?;
    doc.set_syntax_highlighter(None);
    ensure!(view(&doc) == base, "without the highlighter the paragraph is {}", view(&doc).short());
    Ok(())
}
