//! C15 list items are numbered in order with the right marker.
use crate::c01::start;
use crate::ensure;
use crate::model as m;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::collections::BTreeMap;
use std::result::Result;
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

pub const STYLES: [ListStyle; 8] = [ListStyle::Disc, ListStyle::Circle, ListStyle::Square, ListStyle::Decimal, ListStyle::LowerAlpha, ListStyle::UpperAlpha, ListStyle::LowerRoman, ListStyle::UpperRoman];

/// Roman numeral by decimal places (an oracle that shares nothing with the table-driven code).
fn roman(n: usize) -> String {
    let place = |d: usize, one: &str, five: &str, ten: &str| -> String {
        match d { 0 => "".into(), 1..=3 => one.repeat(d), 4 => format!("{one}{five}"), 5..=8 => format!("{five}{}", one.repeat(d - 5)), _ => format!("{one}{ten}") }
    };
    format!("{}{}{}{}", "m".repeat(n / 1000), place(n / 100 % 10, "c", "d", "m"), place(n / 10 % 10, "x", "l", "c"), place(n % 10, "i", "v", "x"))
}
pub fn marker(style: &ListStyle, prefix: &str, suffix: &str, index: usize) -> String {
    let n = index + 1;
    let body = match style {
        ListStyle::Disc => "\u{2022}".to_string(),
        ListStyle::Circle => "\u{25e6}".to_string(),
        ListStyle::Square => "\u{25aa}".to_string(),
        ListStyle::Decimal => n.to_string(),
        ListStyle::LowerAlpha | ListStyle::UpperAlpha if n > 26 => n.to_string(),
        ListStyle::LowerAlpha => char::from(b'a' + index as u8).to_string(),
        ListStyle::UpperAlpha => char::from(b'A' + index as u8).to_string(),
        ListStyle::LowerRoman => roman(n),
        ListStyle::UpperRoman => roman(n).to_uppercase(),
    };
    format!("{prefix}{body}{suffix}")
}

/// Every list of the document against its paragraphs.
pub fn check_lists(doc: &TextDocument) -> Result<(), String> {
    let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let blocks = doc.blocks();
    let flow: Vec<BlockSnapshot> = doc.snapshot_flow().elements.into_iter().filter_map(|e| match e { FlowElementSnapshot::Block(b) => Some(b), _ => None }).collect();
    ensure!(flow.len() == blocks.len(), "{} paragraphs shown of {}", flow.len(), blocks.len());
    for (i, b) in blocks.iter().enumerate() {
        let l = b.list();
        let s = b.snapshot();
        ensure!(s == flow[i], "paragraph {i}: its snapshot differs from the document's");
        match &l {
            None => ensure!(b.list_item_index().is_none() && s.list_info.is_none(), "paragraph {i} is in no list and in one"),
            Some(l) => groups.entry(l.id()).or_default().push(i),
        }
    }
    for (id, items) in &groups {
        let l = blocks[items[0]].list().unwrap();
        let f = l.format();
        ensure!(f.style == Some(l.style()) && f.indent == Some(l.indent()) && f.prefix == Some(l.prefix()) && f.suffix == Some(l.suffix()), "list {id}: its format {f:?} is not its style, indent, prefix and suffix");
        ensure!(l.count() == items.len(), "list {id} counts {} items, it has paragraphs {items:?}", l.count());
        ensure!(l.item(items.len()).is_none(), "list {id} has an item {}", items.len());
        for (k, i) in items.iter().enumerate() {
            let b = &blocks[*i];
            ensure!(l.item(k).map(|x| x.id()) == Some(b.id()), "item {k} of list {id} is not paragraph {i}");
            ensure!(b.list_item_index() == Some(k), "paragraph {i} is item {:?} of list {id}, expected {k}", b.list_item_index());
            let want = marker(&l.style(), &l.prefix(), &l.suffix(), k);
            ensure!(l.item_marker(k) == want, "marker of item {k} is {:?}, expected {want:?}", l.item_marker(k));
            let info = b.snapshot().list_info;
            ensure!(info.is_some(), "paragraph {i} of list {id} shows no list");
            let info = info.unwrap();
            ensure!(info.list_id == *id && info.item_index == k && info.marker == want && info.style == l.style() && info.indent == l.indent(),
                "paragraph {i} shows {info:?}, expected item {k} of list {id} with marker {want:?}");
            let c = doc.cursor_at(b.position());
            if c.block_number() == *i { ensure!(c.current_list().map(|x| x.id()) == Some(*id), "the cursor in paragraph {i} is in list {:?}", c.current_list().map(|x| x.id())); }
        }
    }
    Ok(())
}
/// Every style x every index up to 4100 x three prefixes and suffixes, on one real list each.
pub fn enum_markers(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let style = STYLES[(i % 8) as usize].clone();
    let (pre, suf) = [("", ""), ("(", ")"), ("é§", "."), ("", " \u{2014}")][(i / 8 % 4) as usize];
    let base = (i / 32) as usize * 100;
    let doc = TextDocument::new();
    e2s(doc.set_plain_text("a\nb"))?;
    let c = doc.cursor();
    c.select(SelectionType::Document);
    e2s(c.create_list(style.clone()))?;
    let l = doc.blocks()[0].list().ok_or("no list")?;
    e2s(c.set_list_format(l.id(), &ListFormat { style: None, indent: None, prefix: Some(pre.into()), suffix: Some(suf.into()) }))?;
    log.say(format!("{style:?} {pre:?} {suf:?}, items {base}.."));
    log.nontrivial = true;
    for k in base..base + 100 {
        let want = marker(&style, pre, suf, k);
        ensure!(l.item_marker(k) == want, "marker of item {k} is {:?}, expected {want:?}", l.item_marker(k));
    }
    check_lists(&doc)
}

/// Long lists: more items than letters, removal and insertion in the middle.
pub fn enum_long(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let style = STYLES[(i % 8) as usize].clone();
    let at = (i / 8) as usize; // item removed, then split
    let n = 30;
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&(0..n).map(|k| format!("t{k}")).collect::<Vec<_>>().join("\n")))?;
    let c = doc.cursor();
    c.select(SelectionType::Document);
    e2s(c.create_list(style.clone()))?;
    log.say(format!("{n} items of {style:?}; item {at} leaves the list, then is split"));
    log.nontrivial = true;
    check_lists(&doc)?;
    let l = doc.blocks()[0].list().ok_or("no list")?;
    e2s(c.remove_list_item(l.id(), at))?;
    ensure!(doc.blocks()[at].list().is_none() && doc.block_count() == n, "item {at} is still in the list");
    ensure!(l.count() == n - 1, "{} items left", l.count());
    check_lists(&doc)?;
    let b = doc.blocks()[(at + 1) % n].clone();
    e2s(doc.cursor_at(b.position() + 1).insert_block())?;
    ensure!(l.count() == n, "{} items after the split", l.count());
    check_lists(&doc)?;
    e2s(doc.undo())?;
    check_lists(&doc)?;
    e2s(doc.undo())?;
    check_lists(&doc)?;
    ensure!(l.count() == n, "{} items after undo", l.count());
    e2s(doc.redo())?;
    check_lists(&doc)?;
    ensure!(l.count() == n - 1, "{} items after redo", l.count());
    Ok(())
}

pub fn rnd_lists(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 5 == 0)?;
    check_lists(&doc)?;
    let mut past: Vec<View> = vec![];
    for _ in 0..4 + i % 10 {
        let v = view(&doc);
        let lists: Vec<TextList> = { let mut s: Vec<TextList> = vec![]; for b in doc.blocks() { if let Some(l) = b.list() { if !s.iter().any(|x| x.id() == l.id()) { s.push(l); } } } s };
        match r.below(14) {
            0 if doc.can_undo() => { log.say("undo"); e2s(doc.undo())?; }
            1 if doc.can_redo() => { log.say("redo"); e2s(doc.redo())?; }
            2 | 3 if !lists.is_empty() => {
                let l = r.pick(&lists).clone();
                let k = r.below(l.count() + 1);
                log.say(format!("remove item {k} of list {}", l.id()));
                let n = l.count();
                let b = l.item(k);
                let res = doc.cursor().remove_list_item(l.id(), k);
                ensure!(res.is_ok() == b.is_some(), "removing item {k} of {n}: {res:?}");
                let mut want = v.clone();
                if let Some(b) = b { want.paras[b.block_number()].list = None; }
                ensure!(view(&doc) == want.clone().normalised(), "the document is {}, expected {}", view(&doc).short(), want.short());
            }
            4 | 5 if !lists.is_empty() => {
                let l = r.pick(&lists).clone();
                let p = |r: &mut Rng| if r.chance(1, 2) { Some(r.pick(&["(", "", "§", "é "]).to_string()) } else { None };
                let f = ListFormat { style: if r.chance(1, 2) { Some(style(r)) } else { None }, indent: if r.chance(1, 2) { Some(r.below(4) as u8) } else { None }, prefix: p(r), suffix: p(r) };
                log.say(format!("format list {}: {f:?}", l.id()));
                let old = l.format();
                e2s(doc.cursor().set_list_format(l.id(), &f))?;
                let want = ListFormat { style: f.style.or(old.style), indent: f.indent.or(old.indent), prefix: f.prefix.or(old.prefix), suffix: f.suffix.or(old.suffix) };
                ensure!(l.format() == want, "list format is {:?}, expected {want:?}", l.format());
            }
            6 if !lists.is_empty() => {
                let l = r.pick(&lists).clone();
                let blocks = doc.blocks();
                let b = r.pick(&blocks);
                log.say(format!("paragraph {} joins list {}", b.block_number(), l.id()));
                let (bid, at) = (b.id(), b.block_number());
                e2s(doc.cursor().add_block_to_list(bid, l.id()))?;
                ensure!(doc.blocks()[at].list().map(|x| x.id()) == Some(l.id()), "paragraph {at} did not join");
            }
            _ => {
                let op = gen_op(r, &v, &[0, 2, 2, 3, 4, 5, 10, 10, 11, 11, 12, 13, 15, 16]);
                log.say(format!("{op:?}"));
                let want = op.spec(&v);
                if op.apply(&doc).is_ok() {
                    if let Some((w, _)) = want { ensure!(view(&doc).paras.iter().map(|p| &p.list).collect::<Vec<_>>() == w.paras.iter().map(|p| &p.list).collect::<Vec<_>>(), "lists are {}, expected {}", view(&doc).short(), w.short()); }
                }
            }
        }
        if view(&doc) != v { log.nontrivial = true; past.push(v); }
        check_lists(&doc)?;
    }
    let _ = m::caret_para;
    while doc.can_undo() { e2s(doc.undo())?; check_lists(&doc)?; }
    while doc.can_redo() { e2s(doc.redo())?; check_lists(&doc)?; }
    Ok(())
}
