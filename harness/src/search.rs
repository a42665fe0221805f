//! Reference search: naive left-to-right non-overlapping scan.
use crate::view::*;
use text_document::TextFormat;

fn eq(a: char, b: char, cs: bool) -> bool { a == b || (!cs && a.to_lowercase().eq(b.to_lowercase())) }

/// All matches of `q` in `t` (char positions), leftmost first, non-overlapping.
pub fn find_all(t: &[char], q: &[char], cs: bool, whole: bool) -> Vec<(usize, usize)> {
    let mut out = vec![];
    if q.is_empty() { return out; }
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i + q.len() <= t.len() {
        let hit = (0..q.len()).all(|k| eq(t[i + k], q[k], cs));
        let ok = !whole || ((i == 0 || !word(t[i - 1])) && (i + q.len() == t.len() || !word(t[i + q.len()])));
        if hit && ok { out.push((i, q.len())); i += q.len(); } else { i += 1; }
    }
    out
}

/// Replacement keeps everything outside the matches; matches that span paragraphs are not replaced.
pub fn replace_spec(v: &View, q: &str, t: &str, all: bool, cs: bool) -> View {
    let text: Vec<char> = v.text().chars().collect();
    let qv: Vec<char> = q.chars().collect();
    let mut ms = find_all(&text, &qv, cs, false);
    if !all { ms.truncate(1); }
    let mut w = v.clone();
    for &(p, n) in ms.iter().rev() {
        let (pi, o) = w.locate(p);
        let f = if o > 0 { w.paras[pi].chars[o - 1].1.clone() } else { TextFormat::default() };
        let new: Vec<_> = t.chars().map(|c| (c, f.clone())).collect();
        w.paras[pi].chars.splice(o..o + n, new);
    }
    w
}
