//! Reference for cursor movement: grapheme clusters and words of the paragraph holding a position.
use crate::view::*;
use unicode_segmentation::UnicodeSegmentation;

/// Cluster boundaries of a paragraph, as char offsets.
pub fn bounds(t: &str) -> Vec<usize> {
    let mut v = vec![0];
    let mut n = 0;
    for g in t.graphemes(true) { n += g.chars().count(); v.push(n); }
    v
}
/// Smallest cluster boundary at or after `pos`.
pub fn snap(v: &View, pos: usize) -> usize {
    let (p, o) = v.locate(pos);
    let s = v.start_of(p);
    s + *bounds(&v.paras[p].text()).iter().find(|b| **b >= o).unwrap()
}
/// One user-perceived character forward (a paragraph separator counts as one).
pub fn next_grapheme(v: &View, pos: usize) -> usize {
    let (p, o) = v.locate(pos);
    let s = v.start_of(p);
    if o == v.paras[p].len() { return if p + 1 < v.paras.len() { pos + 1 } else { pos }; }
    // clusters are counted from the position itself
    let t: String = v.paras[p].chars[o..].iter().map(|c| c.0).collect();
    s + o + bounds(&t)[1]
}
pub fn prev_grapheme(v: &View, pos: usize) -> usize {
    let (p, o) = v.locate(pos);
    if o == 0 { return pos.saturating_sub(1); }
    let t: String = v.paras[p].chars[..o].iter().map(|c| c.0).collect();
    let b = bounds(&t);
    v.start_of(p) + b[b.len() - 2]
}
/// Every word of the document in order, as (start, end) positions (UAX #29 words per paragraph).
pub fn all_words(v: &View) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut s = 0;
    for p in &v.paras {
        let t = p.text();
        for (b, w) in t.unicode_word_indices() {
            let a = s + t[..b].chars().count();
            out.push((a, a + w.chars().count()));
        }
        s += p.len() + 1;
    }
    out
}
