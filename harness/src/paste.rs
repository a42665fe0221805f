//! C12 copying and pasting. C14 fragments tile each paragraph.
use crate::c01::{nth_doc, start};
use crate::ensure;
use crate::model as m;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::result::Result;
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }
fn sel(doc: &TextDocument, a: usize, p: usize) -> TextCursor { let c = doc.cursor_at(a); c.set_position(p, MoveMode::KeepAnchor); c }

/// Every document of at most 4 symbols with its second character bold, every selection of it,
/// pasted at every position and over a selection of a small document.
pub fn enum_paste(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = nth_doc(i / 15);
    let n = d.chars().count();
    let (mut lo, mut k) = (0usize, (i % 15) as usize);
    while k >= 5 - lo { k -= 5 - lo; lo += 1; }
    let hi = lo + k;
    if hi > n { return Ok(()); }
    let src = TextDocument::new();
    e2s(src.set_plain_text(&d))?;
    if n >= 2 { e2s(sel(&src, 1, 2).set_char_format(&TextFormat { font_bold: Some(true), ..Default::default() }))?; }
    let v = view(&src);
    log.say(format!("document {}, selection {lo}..{hi}", v.short()));
    let c = sel(&src, lo, hi);
    let f = c.selection();
    let text: String = d.chars().skip(lo).take(hi - lo).collect();
    log.nontrivial = hi > lo;
    if hi == lo {
        ensure!(f.is_empty(), "an empty selection gives a fragment");
    } else {
        ensure!(f.to_plain_text().trim_end_matches('\n') == text.trim_end_matches('\n'), "fragment text is {:?}, expected {text:?}", f.to_plain_text());
    }
    let slice: Vec<Vec<_>> = m::slice(&v, lo, hi).into_iter().map(|p| p.chars).collect();
    // the source is gone before the paste
    e2s(src.set_plain_text("gone"))?;
    for (p, a) in [(0, 0), (1, 1), (2, 2), (3, 3), (1, 2), (0, 3)] {
        let dst = TextDocument::new();
        e2s(dst.set_plain_text("x\ny"))?;
        let w = view(&dst);
        let c = sel(&dst, a, p);
        let res = c.insert_fragment(&f);
        if hi == lo {
            ensure!(res.is_err() && view(&dst) == w && !dst.can_undo(), "pasting nothing gives {}", view(&dst).short());
            continue;
        }
        e2s(res)?;
        let want = m::paste(&w, p.min(a), p.max(a), &slice);
        ensure!(view(&dst) == want, "pasted over {p}..{a} of \"x\\ny\": {}, expected {}", view(&dst).short(), want.short());
        let end = p.min(a) + slice.iter().map(|p| p.len() + 1).sum::<usize>() - 1;
        ensure!(c.position() == end && c.anchor() == end, "caret at {}/{}, expected {end}", c.position(), c.anchor());
        e2s(dst.undo())?;
        ensure!(view(&dst) == w, "undo of the paste gives {}", view(&dst).short());
    }
    Ok(())
}

pub fn rnd_paste(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let src = start(r, log, i % 4 == 0)?;
    let kinds: &[u8] = if i % 3 == 0 { &[0, 1, 2, 3, 6, 6, 7, 8, 10] } else { &[0, 1, 2, 3, 6, 6, 7, 9] };
    for _ in 0..r.range(1, 6) {
        let op = gen_op(r, &view(&src), kinds);
        log.say(format!("{op:?}"));
        let _ = op.apply(&src);
    }
    let dst = start(r, log, false)?;
    for _ in 0..r.below(3) {
        let op = gen_op(r, &view(&dst), &[0, 2, 6, 8, 10]);
        log.say(format!("target: {op:?}"));
        let _ = op.apply(&dst);
    }
    for _ in 0..r.range(1, 3) {
        let v = view(&src);
        let (x, y) = (crate::words::snap(&v, r.below(v.max_pos() + 1)), crate::words::snap(&v, r.below(v.max_pos() + 1)));
        let (lo, hi) = (x.min(y), x.max(y));
        let c = sel(&src, x, y);
        let f = c.selection();
        let t: String = v.text().chars().skip(lo).take(hi - lo).collect();
        log.say(format!("copy {lo}..{hi} of {}", v.short()));
        ensure!(view(&src) == v, "copying changed the source to {}", view(&src).short());
        if lo == hi { ensure!(f.is_empty(), "an empty selection gives a fragment"); continue; }
        ensure!(e2s(c.selected_text())? == t, "selected text is {:?}, expected {t:?}", c.selected_text());
        ensure!(f.to_plain_text().trim_end_matches('\n') == t.trim_end_matches('\n'), "fragment text is {:?}, expected {t:?}", f.to_plain_text());
        let slice = m::slice(&v, lo, hi);
        // later changes of the source do not reach the fragment
        let keep = r.chance(1, 2);
        if !keep { let op = gen_op(r, &v, TEXT_KINDS); log.say(format!("source: {op:?}")); let _ = op.apply(&src); }
        let fresh = TextDocument::new();
        let plain = slice.iter().all(|p| p.bf == BlockFormat::default() && p.list.is_none());
        e2s(fresh.cursor().insert_fragment(&f))?;
        let fv = view(&fresh);
        let want: String = slice.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n");
        ensure!(fv.text().trim_end_matches('\n') == want.trim_end_matches('\n'), "pasted into an empty document: {:?}, expected {want:?}", fv.text());
        for (k, p) in slice.iter().enumerate() {
            if k < fv.paras.len() { ensure!(fv.paras[k].chars == p.chars, "paragraph {k} pasted into an empty document is {}, expected {}", fv.short(), View { paras: slice.clone() }.short()); }
        }
        let w = view(&dst);
        let (p, a) = (crate::words::snap(&w, r.below(w.max_pos() + 1)), crate::words::snap(&w, r.below(w.max_pos() + 1)));
        let a = if r.chance(1, 2) { p } else { a };
        log.say(format!("paste over {}..{} of {}", p.min(a), p.max(a), w.short()));
        let c = sel(&dst, a, p);
        e2s(c.insert_fragment(&f))?;
        log.nontrivial = true;
        let got = view(&dst);
        if plain {
            let chars: Vec<Vec<_>> = slice.iter().map(|p| p.chars.clone()).collect();
            let want = m::paste(&w, p.min(a), p.max(a), &chars);
            ensure!(got == want, "pasted: {}, expected {}", got.short(), want.short());
            let end = p.min(a) + chars.iter().map(|p| p.len() + 1).sum::<usize>() - 1;
            ensure!(c.position() == end && c.anchor() == end, "caret at {}/{}, expected {end}", c.position(), c.anchor());
        } else {
            // formatted paragraphs keep to themselves: the text around and the pasted text are all there
            let all: Vec<(char, TextFormat)> = got.paras.iter().flat_map(|p| p.chars.iter().cloned()).collect();
            let d = m::delete(&w, p.min(a), p.max(a));
            let (dp, dof) = d.locate(p.min(a));
            let mut want: Vec<(char, TextFormat)> = d.paras[..dp].iter().flat_map(|p| p.chars.iter().cloned()).collect();
            want.extend(d.paras[dp].chars[..dof].iter().cloned());
            want.extend(slice.iter().flat_map(|p| p.chars.iter().cloned()));
            want.extend(d.paras[dp].chars[dof..].iter().cloned());
            want.extend(d.paras[dp + 1..].iter().flat_map(|p| p.chars.iter().cloned()));
            ensure!(all == want, "pasted: {}, expected the same characters with {:?} inserted", got.short(), t);
        }
        e2s(dst.undo())?;
        ensure!(view(&dst) == w, "undo of the paste gives {}", view(&dst).short());
        e2s(dst.redo())?;
        ensure!(view(&dst) == got, "redo of the paste gives {}", view(&dst).short());
    }
    Ok(())
}

// ── C14 ──────────────────────────────────────────────────────────

/// Offsets, lengths and texts of a paragraph's fragments.
pub fn tile(frags: &[FragmentContent], text: &str, length: usize, what: &str) -> Result<(), String> {
    let c: Vec<char> = text.chars().collect();
    ensure!(c.len() == length, "{what}: length {length} of text {text:?}");
    let mut at = 0;
    for f in frags {
        match f {
            FragmentContent::Text { text: t, offset, length, .. } => {
                ensure!(*offset == at && *length == t.chars().count() && *length > 0, "{what}: fragment {t:?} at {offset} with length {length}, expected at {at}");
                ensure!(at + length <= c.len() && c[at..at + length].iter().collect::<String>() == *t, "{what}: fragment {t:?} at {at} of {text:?}");
                at += length;
            }
            FragmentContent::Image { .. } => return Err(format!("{what}: an image nobody inserted")),
        }
    }
    ensure!(at == c.len(), "{what}: fragments cover {at} of {} characters", c.len());
    Ok(())
}
fn fmt_of(f: &FragmentContent) -> &TextFormat { match f { FragmentContent::Text { format, .. } | FragmentContent::Image { format, .. } => format } }

pub fn check_tiles(doc: &TextDocument) -> Result<(), String> {
    let flow: Vec<BlockSnapshot> = doc.snapshot_flow().elements.into_iter().filter_map(|e| match e { FlowElementSnapshot::Block(b) => Some(b), _ => None }).collect();
    let handles: Vec<TextBlock> = doc.flow().into_iter().filter_map(|e| match e { FlowElement::Block(b) => Some(b), _ => None }).collect();
    let blocks = doc.blocks();
    ensure!(flow.len() == blocks.len() && handles.len() == blocks.len(), "{} paragraphs in the snapshot, {} handles, {} paragraphs", flow.len(), handles.len(), blocks.len());
    for (i, b) in blocks.iter().enumerate() {
        let s = b.snapshot();
        let f = b.fragments();
        tile(&f, &b.text(), b.length(), &format!("paragraph {i}"))?;
        for w in f.windows(2) { ensure!(fmt_of(&w[0]) != fmt_of(&w[1]), "paragraph {i}: neighbouring fragments with one format {}", fmt_short(fmt_of(&w[0]))); }
        ensure!(s.fragments == f && s.text == b.text() && s.length == b.length(), "snapshot of paragraph {i} differs from its handle");
        ensure!(flow[i] == s, "flow snapshot of paragraph {i}: {:?}, its own: {s:?}", flow[i]);
        ensure!(handles[i].id() == b.id() && handles[i].snapshot() == s, "flow handle of paragraph {i}");
        let at = doc.snapshot_block_at_position(s.position);
        ensure!(at.as_ref() == Some(&s) || at.as_ref().map(|x| x.block_id) != Some(s.block_id), "snapshot at {} differs: {at:?}", s.position);
        ensure!(at.is_some(), "no snapshot at {}", s.position);
        for x in &f {
            if let FragmentContent::Text { offset, length, format, element_id, .. } = x {
                for o in *offset..offset + length {
                    ensure!(b.char_format_at(o).as_ref() == Some(format), "format at {i}:{o}");
                    let e = doc.find_element_at_position(s.position + o);
                    ensure!(e == Some((*element_id, s.position + offset, o - offset)), "element at position {} is {e:?}, expected {:?}", s.position + o, (element_id, s.position + offset, o - offset));
                }
            }
        }
        ensure!(b.char_format_at(b.length()).is_none(), "a format past the end of paragraph {i}");
    }
    Ok(())
}
pub fn rnd_tiles(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 4 == 0)?;
    check_tiles(&doc)?;
    for _ in 0..3 + i % 9 {
        let v = view(&doc);
        if r.chance(1, 8) && doc.can_undo() { log.say("undo"); e2s(doc.undo())?; }
        else if r.chance(1, 8) && doc.can_redo() { log.say("redo"); e2s(doc.redo())?; }
        else {
            let op = gen_op(r, &v, &[0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 6, 6, 7, 7, 8, 9, 10, 15, 16]);
            log.say(format!("{op:?}"));
            let _ = op.apply(&doc);
        }
        if view(&doc) != v { log.nontrivial = true; }
        check_tiles(&doc)?;
    }
    Ok(())
}
/// Every pattern of {plain, bold, italic} over 5 characters, built in every one of 4 ways.
pub fn enum_tiles(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    const T: [char; 5] = ['a', 'é', 'b', '日', '😀'];
    let (pat, way) = (i / 4, i % 4);
    let doc = TextDocument::new();
    let mut want = vec![];
    let mut x = pat;
    for c in T {
        want.push((c, match x % 3 { 1 => TextFormat { font_bold: Some(true), ..Default::default() }, 2 => TextFormat { font_italic: Some(true), ..Default::default() }, _ => TextFormat::default() }));
        x /= 3;
    }
    log.say(format!("pattern {pat}, built by way {way}"));
    log.nontrivial = true;
    match way {
        0 | 1 => {
            e2s(doc.set_plain_text(&T.iter().collect::<String>()))?;
            for j in 0..5 { let j = if way == 0 { j } else { 4 - j }; if want[j].1 != TextFormat::default() { e2s(sel(&doc, j, j + 1).set_char_format(&want[j].1))?; } }
        }
        2 => {
            // one paragraph per character, formatted, then joined
            e2s(doc.set_plain_text(&T.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("\n")))?;
            for j in 0..5 { if want[j].1 != TextFormat::default() { e2s(sel(&doc, 2 * j, 2 * j + 1).set_char_format(&want[j].1))?; } }
            for j in 0..4 { e2s(doc.cursor_at(j + 1).delete_char())?; }
        }
        _ => {
            // everything italic first, then split, formatted and joined
            e2s(doc.set_plain_text(&T.iter().collect::<String>()))?;
            e2s(sel(&doc, 0, 5).set_char_format(&TextFormat { font_strikeout: Some(true), ..Default::default() }))?;
            for j in 0..5 { let mut f = want[j].1.clone(); f.font_strikeout = Some(true); want[j].1 = f.clone(); if f.font_bold.is_some() || f.font_italic.is_some() { e2s(sel(&doc, j, j + 1).set_char_format(&f))?; } }
            e2s(doc.cursor_at(2).insert_block())?;
            check_tiles(&doc)?;
            e2s(doc.cursor_at(3).delete_previous_char())?;
        }
    }
    check_tiles(&doc)?;
    let v = view(&doc);
    ensure!(v.paras.len() == 1 && v.paras[0].chars == want, "document is {}", v.short());
    Ok(())
}
