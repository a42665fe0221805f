//! C09: search finds exactly the matches, replacement rewrites exactly them.
use crate::c01::{nth_over, start};
use crate::ensure;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::collections::BTreeSet;
use std::result::Result;
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

/// Case-insensitive comparison is by lower case, the two small sigmas being one letter.
fn fold(c: char) -> Vec<char> { c.to_lowercase().map(|c| if c == 'ς' { 'σ' } else { c }).collect() }

fn word_edges(t: &str) -> BTreeSet<usize> {
    let mut s: BTreeSet<usize> = [0, t.chars().count()].into();
    for (b, w) in t.unicode_word_indices() {
        let a = t[..b].chars().count();
        s.insert(a);
        s.insert(a + w.chars().count());
    }
    s
}
/// The matches the property asks for; None where the pattern is invalid.
pub fn matches(t: &str, q: &str, o: &FindOptions) -> Option<Vec<(usize, usize)>> {
    let edges = word_edges(t);
    let ok = |s: usize, n: usize| !o.whole_word || (edges.contains(&s) && edges.contains(&(s + n)));
    if q.is_empty() { return Some(vec![]); }
    if o.use_regex {
        let re = regex::RegexBuilder::new(q).case_insensitive(!o.case_sensitive).build().ok()?;
        return Some(re.find_iter(t).map(|m| (t[..m.start()].chars().count(), m.as_str().chars().count())).filter(|m| ok(m.0, m.1)).collect());
    }
    let f = |c: char| if o.case_sensitive { vec![c] } else { fold(c) };
    let tc: Vec<Vec<char>> = t.chars().map(f).collect();
    let qc: Vec<char> = q.chars().flat_map(f).collect();
    let mut out = vec![];
    let mut i = 0;
    while i < tc.len() {
        // the characters from i on whose folding spells the query
        let (mut j, mut k) = (i, 0);
        while j < tc.len() && k < qc.len() && qc[k..].starts_with(&tc[j]) { k += tc[j].len(); j += 1; }
        if k == qc.len() && ok(i, j - i) { out.push((i, j - i)); i = j; } else { i += 1; }
    }
    Some(out)
}

fn check_find(doc: &TextDocument, q: &str, o: &FindOptions) -> Result<Vec<(usize, usize)>, String> {
    let t = e2s(doc.to_plain_text())?;
    let got = doc.find_all(q, o);
    let Some(want) = matches(&t, q, o) else {
        ensure!(got.is_err(), "the pattern {q:?} is invalid, yet find_all returns matches");
        ensure!(doc.find(q, 0, o).is_err(), "the pattern {q:?} is invalid, yet find returns");
        return Ok(vec![]);
    };
    let got: Vec<(usize, usize)> = e2s(got)?.iter().map(|m| (m.position, m.length)).collect();
    ensure!(got == want, "find_all {q:?} {o:?} in {t:?} gives {got:?}, expected {want:?}");
    let n = t.chars().count();
    for from in 0..=n + 1 {
        for back in [false, true] {
            let o = FindOptions { search_backward: back, ..o.clone() };
            let g = e2s(doc.find(q, from, &o))?.map(|m| (m.position, m.length));
            let w = if back { want.iter().rev().find(|m| m.0 < from) } else { want.iter().find(|m| m.0 >= from) }.copied();
            ensure!(g == w, "find {q:?} from {from} {o:?} in {t:?} gives {g:?}, expected {w:?}");
        }
    }
    Ok(want)
}
fn check_replace(doc: &TextDocument, q: &str, new: &str, all: bool, o: &FindOptions, log: &mut Log) -> Result<(), String> {
    let want = check_find(doc, q, o)?;
    if o.use_regex && want.iter().any(|m| m.1 == 0) { return Ok(()); } // an empty match at a paragraph's end lies in no paragraph
    let v = view(doc);
    let mut ms: Vec<(usize, usize)> = want.into_iter().filter(|m| { let (p, o) = v.locate(m.0); o + m.1 <= v.paras[p].len() }).collect();
    if !all { ms.truncate(1); }
    let mut x = v.clone();
    for &(s, n) in ms.iter().rev() {
        let (p, o) = x.locate(s);
        let f = if o > 0 { x.paras[p].chars[o - 1].1.clone() } else { TextFormat::default() };
        x.paras[p].chars.splice(o..o + n, new.chars().map(|c| (c, f.clone())));
    }
    if !ms.is_empty() { log.nontrivial = true; }
    match doc.replace_text(q, new, all, o) {
        Err(_) => { ensure!(matches(&v.text(), q, o).is_none(), "replacing a valid pattern is refused"); ensure!(view(doc) == v, "a refused replacement changed the document"); }
        Ok(n) => {
            ensure!(n == ms.len(), "replace_text({q:?}) reports {n} replacements, expected {}", ms.len());
            let w = view(doc);
            ensure!(w == x, "after replacing {q:?} by {new:?} (all: {all}, {o:?}) the document is {}, expected {}", w.short(), x.short());
            ensure!(e2s(doc.to_plain_text())? == x.text(), "the text reads {:?}, expected {:?}", doc.to_plain_text(), x.text());
        }
    }
    Ok(())
}
fn opts(k: u64) -> FindOptions { FindOptions { case_sensitive: k & 1 != 0, whole_word: k & 2 != 0, use_regex: k & 4 != 0, search_backward: false } }

/// Every text of up to 5 symbols x every query of 1-2 symbols x case and word options.
pub const FIND_DOCS: u64 = 1 + 4 + 16 + 64 + 256 + 1024;
pub fn enum_find(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = nth_over(&['a', 'A', ' ', '\n'], i);
    log.say(format!("document {d:?}"));
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&d))?;
    for q in 1..21 {
        let q = nth_over(&['a', 'A', ' ', '\n'], q);
        for k in 0..4 {
            if !check_find(&doc, &q, &opts(k))?.is_empty() { log.nontrivial = true; }
        }
    }
    Ok(())
}
const SPECIAL: [&str; 14] = ["İ", "i", "ß", "Σ", "σ", "ς", "É", "é", "ﬁ", "a", "b", " ", "'", "_"];
const PATTERNS: [&str; 12] = ["[ab]+", "a.", "\\w+", "x*", "^a", "b$", "é|日", "(", "(?i)A", "\\s", "😀+", "a\\nb"];
pub fn rnd_find(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let special = i % 3 == 0;
    let doc = if special {
        let t: String = (0..r.range(1, 8)).map(|_| if r.chance(1, 8) { "\n" } else { *r.pick(&SPECIAL) }).collect();
        log.say(format!("document {t:?}"));
        let d = TextDocument::new();
        e2s(d.set_plain_text(&t))?;
        d
    } else { start(r, log, false)? };
    for _ in 0..i % 4 {
        let op = gen_op(r, &view(&doc), ALL_KINDS);
        log.say(format!("{op:?}"));
        let _ = op.apply(&doc);
    }
    let text: Vec<char> = e2s(doc.to_plain_text())?.chars().collect();
    for _ in 0..3 {
        let o = opts(r.next() % 8);
        let q: String = if o.use_regex { r.pick(&PATTERNS).to_string() }
            else if r.chance(1, 2) && !text.is_empty() {
                let a = r.below(text.len());
                let b = (a + r.range(1, 3)).min(text.len());
                let s: String = text[a..b].iter().collect();
                match r.below(3) { 0 => s.to_uppercase(), 1 => s.to_lowercase(), _ => s }
            } else if special { (0..r.range(1, 2)).map(|_| *r.pick(&SPECIAL)).collect() } else { crate::ops::text(r, 1, 2) };
        let new = if r.chance(1, 3) { String::new() } else { crate::ops::text(r, 1, 4) };
        let all = r.chance(2, 3);
        log.say(format!("replace {q:?} by {new:?}, all {all}, {o:?}"));
        check_replace(&doc, &q, &new, all, &o, log)?;
    }
    Ok(())
}
