//! The reference semantics: each editing operation as a pure function on the view
//! (the specification functions the concrete contract layer checks the real code against).
use crate::view::*;
use text_document::*;

pub fn delete(v: &View, lo: usize, hi: usize) -> View {
    let mut v = v.clone();
    if lo >= hi { return v; }
    let (pa, oa) = v.locate(lo);
    let (pb, ob) = v.locate(hi);
    let tail: Vec<_> = v.paras[pb].chars[ob..].to_vec();
    v.paras[pa].chars.truncate(oa);
    v.paras[pa].chars.extend(tail);
    v.paras.drain(pa + 1..=pb);
    v.normalised()
}

/// Typed text takes the formatting of the character on its left in the paragraph.
pub fn insert(v: &View, lo: usize, hi: usize, t: &str) -> View {
    let mut v = delete(v, lo, hi);
    let (p, o) = v.locate(lo);
    let f = if o > 0 { v.paras[p].chars[o - 1].1.clone() } else { TextFormat::default() };
    let ins: Vec<_> = t.chars().map(|c| (c, f.clone())).collect();
    v.paras[p].chars.splice(o..o, ins);
    v
}

pub fn insert_formatted(v: &View, lo: usize, hi: usize, t: &str, f: &TextFormat) -> View {
    let mut v = delete(v, lo, hi);
    let (p, o) = v.locate(lo);
    let ins: Vec<_> = t.chars().map(|c| (c, f.clone())).collect();
    v.paras[p].chars.splice(o..o, ins);
    v
}

/// Formatted insertion carries exactly the six attributes it is given; an attribute left out
/// is stored as its neutral value.
pub fn given(f: &TextFormat) -> TextFormat {
    TextFormat {
        font_family: Some(f.font_family.clone().unwrap_or_default()),
        font_point_size: Some(f.font_point_size.unwrap_or(0)),
        font_bold: Some(f.font_bold.unwrap_or(false)),
        font_italic: Some(f.font_italic.unwrap_or(false)),
        font_underline: Some(f.font_underline.unwrap_or(false)),
        font_strikeout: Some(f.font_strikeout.unwrap_or(false)),
        ..Default::default()
    }
}

pub fn split(v: &View, lo: usize, hi: usize) -> View {
    let mut v = delete(v, lo, hi);
    let (p, o) = v.locate(lo);
    let tail = v.paras[p].chars.split_off(o);
    let np = Para { chars: tail, bf: v.paras[p].bf.clone(), list: v.paras[p].list.clone() };
    v.paras.insert(p + 1, np);
    v
}

pub fn overlay(base: &TextFormat, f: &TextFormat, merge: bool) -> TextFormat {
    let mut o = base.clone();
    macro_rules! put { ($($x:ident),*) => { $( if f.$x.is_some() { o.$x = f.$x.clone(); } )* } }
    put!(font_family, font_bold, font_italic, font_underline, font_strikeout);
    if !merge {
        put!(font_point_size, font_weight, font_overline, letter_spacing, word_spacing, underline_style, vertical_alignment);
    }
    o
}

pub fn char_format(v: &View, lo: usize, hi: usize, f: &TextFormat, merge: bool) -> View {
    let mut v = v.clone();
    let mut s = 0;
    for p in v.paras.iter_mut() {
        for (i, c) in p.chars.iter_mut().enumerate() {
            if s + i >= lo && s + i < hi { c.1 = overlay(&c.1, f, merge); }
        }
        s += p.chars.len() + 1;
    }
    v
}

pub fn block_format(v: &View, lo: usize, hi: usize, f: &BlockFormat) -> View {
    let mut v = v.clone();
    let mut s = 0;
    for p in v.paras.iter_mut() {
        if s <= hi && s + p.chars.len() >= lo {
            macro_rules! put { ($($x:ident),*) => { $( if f.$x.is_some() { p.bf.$x = f.$x.clone(); } )* } }
            put!(alignment, top_margin, bottom_margin, left_margin, right_margin, heading_level, indent, text_indent, marker,
                line_height, non_breakable_lines, direction, background_color, is_code_block, code_language);
        }
        s += p.chars.len() + 1;
    }
    v
}

pub fn make_list(v: &View, lo: usize, hi: usize, style: &ListStyle) -> View {
    let mut v = v.clone();
    let mut s = 0;
    for p in v.paras.iter_mut() {
        if s <= hi && s + p.chars.len() >= lo { p.list = Some(ListV { key: 9999, style: style.clone(), indent: 0 }); }
        s += p.chars.len() + 1;
    }
    v.normalised()
}

pub fn unlist(v: &View, para: usize) -> View {
    let mut v = v.clone();
    v.paras[para].list = None;
    v.normalised()
}

/// Paragraph holding a caret, as the library resolves it: the separator after a
/// non-empty paragraph belongs to the paragraph that follows.
pub fn caret_para(v: &View, pos: usize) -> usize {
    let (p, o) = v.locate(pos);
    if o == v.paras[p].len() && o > 0 && p + 1 < v.paras.len() { p + 1 } else { p }
}

/// Paste plain paragraphs: the first joins the text before the caret, the last the text after it.
pub fn paste(v: &View, lo: usize, hi: usize, frag: &[Vec<(char, TextFormat)>]) -> View {
    let mut v = delete(v, lo, hi);
    let (p, o) = v.locate(lo);
    if frag.len() == 1 {
        v.paras[p].chars.splice(o..o, frag[0].iter().cloned());
        return v;
    }
    let tail = v.paras[p].chars.split_off(o);
    let (bf, list) = (v.paras[p].bf.clone(), v.paras[p].list.clone());
    v.paras[p].chars.extend(frag[0].iter().cloned());
    let mut at = p + 1;
    for m in &frag[1..frag.len() - 1] {
        v.paras.insert(at, Para { chars: m.clone(), bf: BlockFormat::default(), list: None });
        at += 1;
    }
    let mut last = frag[frag.len() - 1].clone();
    last.extend(tail);
    v.paras.insert(at, Para { chars: last, bf, list });
    v.normalised()
}

/// The paragraphs between two positions.
pub fn slice(v: &View, lo: usize, hi: usize) -> Vec<Para> {
    let (pa, oa) = v.locate(lo);
    let (pb, ob) = v.locate(hi);
    let mut out: Vec<Para> = v.paras[pa..=pb].to_vec();
    let n = out.len();
    out[n - 1].chars.truncate(ob);
    out[0].chars.drain(..oa);
    // a selection that stops at the start of a paragraph has nothing of it
    if n > 1 && ob == 0 { out.pop(); }
    out
}
