//! C10: events let a listener mirror the document.
use crate::c01::{nth_doc, start};
use crate::ensure;
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::result::Result;
use std::sync::{Arc, Mutex};
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }

fn flow_ids(doc: &TextDocument) -> Vec<(u8, usize)> {
    doc.flow().iter().map(|e| match e { FlowElement::Block(b) => (0, b.id()), FlowElement::Table(t) => (1, t.id()), FlowElement::Frame(f) => (2, f.id()) }).collect()
}
/// what a listener keeps
struct Mirror { text: Vec<char>, blocks: usize, flow: Vec<(u8, usize)>, v: View }
fn mirror(doc: &TextDocument) -> Result<Mirror, String> {
    Ok(Mirror { text: e2s(doc.to_plain_text())?.chars().collect(), blocks: doc.block_count(), flow: flow_ids(doc), v: view(doc) })
}
/// Applies the events of one step to what the listener had and compares.
fn check(before: &Mirror, after: &Mirror, ev: &[DocumentEvent], what: &str) -> Result<(), String> {
    let mut blocks = before.blocks;
    let mut flow = before.flow.clone();
    let edits: Vec<(usize, usize, usize)> = ev.iter().filter_map(|e| match e {
        DocumentEvent::ContentsChanged { position, chars_removed, chars_added, .. } => Some((*position, *chars_removed, *chars_added)),
        _ => None,
    }).collect();
    let real: Vec<_> = edits.iter().filter(|e| e.1 + e.2 > 0).collect();
    ensure!(real.len() <= 1, "{what} reports {} content changes", real.len());
    let (p, rem, add) = real.first().map(|x| **x).unwrap_or((0, 0, 0));
    ensure!(p + rem <= before.text.len() && p + add <= after.text.len(), "{what} reports a change at {p}, removed {rem}, added {add} in a text of length {} -> {}", before.text.len(), after.text.len());
    let mut t: Vec<char> = before.text[..p].to_vec();
    t.extend(&after.text[p..p + add]);
    t.extend(&before.text[p + rem..]);
    ensure!(t == after.text, "{what} reports position {p}, removed {rem}, added {add}: from {:?} this gives {:?}, the text is {:?}",
        before.text.iter().collect::<String>(), t.iter().collect::<String>(), after.text.iter().collect::<String>());
    for e in ev {
        match e {
            DocumentEvent::BlockCountChanged(n) => blocks = *n,
            DocumentEvent::FlowElementsRemoved { flow_index, count } => {
                ensure!(flow_index + count <= flow.len(), "{what} removes flow elements {flow_index}+{count} of {}", flow.len());
                flow.drain(*flow_index..flow_index + count);
            }
            DocumentEvent::FlowElementsInserted { flow_index, count } => {
                ensure!(*flow_index <= flow.len() && flow_index + count <= after.flow.len(), "{what} inserts flow elements {flow_index}+{count}");
                flow.splice(*flow_index..*flow_index, after.flow[*flow_index..flow_index + count].iter().copied());
            }
            _ => {}
        }
    }
    ensure!(blocks == after.blocks, "{what}: the listener counts {blocks} paragraphs, there are {}: {ev:?}", after.blocks);
    ensure!(flow == after.flow, "{what}: the listener has the elements {flow:?}, the document {:?}: {ev:?}", after.flow);
    // a change of formatting is reported
    if before.text == after.text && before.v != after.v {
        let (a, b) = (&before.v, &after.v);
        let touched = |pi: usize| ev.iter().any(|e| match e {
            DocumentEvent::FormatChanged { kind: FormatChangeKind::List, .. } => a.paras[pi].list != b.paras[pi].list,
            DocumentEvent::FormatChanged { position, length, .. } => { let s = b.start_of(pi); *position <= s + b.paras[pi].len() && position + length >= s }
            DocumentEvent::ContentsChanged { .. } => true,
            _ => false,
        });
        if a.paras.len() == b.paras.len() {
            for i in 0..a.paras.len() { ensure!(a.paras[i] == b.paras[i] || touched(i), "{what} changes the formatting of paragraph {i} without reporting it: {ev:?}"); }
            // character changes lie within the reported ranges
            if !ev.iter().any(|e| matches!(e, DocumentEvent::ContentsChanged { .. } | DocumentEvent::FormatChanged { kind: FormatChangeKind::Block | FormatChangeKind::List, .. })) {
                for i in 0..a.paras.len() {
                    for o in 0..a.paras[i].len() {
                        if a.paras[i].chars[o] != b.paras[i].chars[o] {
                            let at = b.start_of(i) + o;
                            ensure!(ev.iter().any(|e| matches!(e, DocumentEvent::FormatChanged { position, length, .. } if *position <= at && at < position + length)), "{what} changes the format of the character at {at} without reporting it: {ev:?}");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
/// two callbacks, one of them registered late and dropped early, and polling
struct Ears { log: Arc<Mutex<Vec<DocumentEvent>>>, _sub: Subscription, polled: Vec<DocumentEvent>, late: Option<(Arc<Mutex<Vec<DocumentEvent>>>, Subscription, usize)>, dropped: Option<(Arc<Mutex<Vec<DocumentEvent>>>, usize, usize)> }
fn listen(doc: &TextDocument) -> (Arc<Mutex<Vec<DocumentEvent>>>, Subscription) {
    let log = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    let s = doc.on_change(move |e| l.lock().unwrap().push(e));
    (log, s)
}
impl Ears {
    fn new(doc: &TextDocument) -> Self { doc.poll_events(); let (log, _sub) = listen(doc); Ears { log, _sub, polled: vec![], late: None, dropped: None } }
    fn poll(&mut self, doc: &TextDocument) -> usize { let n = self.polled.len(); self.polled.extend(doc.poll_events()); n }
    fn agree(&self) -> Result<(), String> {
        let all = self.log.lock().unwrap().clone();
        ensure!(all == self.polled, "the callback saw {:?}, polling {:?}", all, self.polled);
        if let Some((l, _, from)) = &self.late { ensure!(*l.lock().unwrap() == all[*from..], "a callback registered later saw {:?}, expected {:?}", l.lock().unwrap(), &all[*from..]); }
        if let Some((l, from, to)) = &self.dropped { ensure!(*l.lock().unwrap() == all[*from..*to], "a dropped callback saw {:?}, expected {:?}", l.lock().unwrap(), &all[*from..*to]); }
        Ok(())
    }
}

pub fn rnd_events(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = start(r, log, i % 5 == 0)?;
    let mut ears = Ears::new(&doc);
    for k in 0..3 + i % 8 {
        let before = mirror(&doc)?;
        let from = ears.polled.len();
        let what;
        match r.below(10) {
            0 | 1 if doc.can_undo() => { what = "undo".to_string(); log.say("undo"); e2s(doc.undo())?; }
            2 | 3 if doc.can_redo() => { what = "redo".to_string(); log.say("redo"); e2s(doc.redo())?; }
            _ => {
                let op = gen_op(r, &before.v, ALL_KINDS);
                log.say(format!("{op:?}"));
                what = format!("{op:?}");
                let _ = op.apply(&doc);
            }
        }
        ears.poll(&doc);
        let after = mirror(&doc)?;
        if after.v != before.v { log.nontrivial = true; }
        check(&before, &after, &ears.polled[from..].to_vec(), &what)?;
        ears.agree()?;
        let seen = ears.polled.len();
        if k == 1 { let (l, s) = listen(&doc); ears.late = Some((l, s, seen)); }
        if k == 4 { if let Some((l, s, f)) = ears.late.take() { drop(s); ears.dropped = Some((l, f, seen)); } }
    }
    // polling rarely gives the same events as polling often
    doc.set_modified(!doc.is_modified());
    e2s(doc.set_plain_text("x\ny"))?;
    ears.poll(&doc);
    ears.agree()?;
    ensure!(ears.polled.contains(&DocumentEvent::DocumentReset), "loading reports no reset");
    ensure!(doc.poll_events().is_empty(), "an event is delivered twice");
    Ok(())
}
pub fn enum_events(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let d = nth_doc(i / (25 * 7));
    let n = d.chars().count();
    let (p, a, k) = (((i / 7) % 25 / 5) as usize, ((i / 7) % 25 % 5) as usize, i % 7);
    if p > n || a > n { return Ok(()); }
    let doc = TextDocument::new();
    e2s(doc.set_plain_text(&d))?;
    let op = match k {
        0 => Op::Ins { p, a, t: "xß".into() },
        1 => Op::Split { p, a },
        2 => Op::Del { p, a },
        3 if p == a => Op::DelNext { p },
        4 if p == a => Op::DelPrev { p },
        5 => Op::SetFmt { p, a, f: TextFormat { font_bold: Some(true), ..Default::default() } },
        6 => Op::PastePlain { p, a, t: "u\né\n".into() },
        _ => return Ok(()),
    };
    log.say(format!("document {d:?}"));
    log.say(format!("{op:?}"));
    let mut ears = Ears::new(&doc);
    let before = mirror(&doc)?;
    e2s(op.apply(&doc))?;
    ears.poll(&doc);
    let after = mirror(&doc)?;
    log.nontrivial = before.v != after.v;
    check(&before, &after, &ears.polled.clone(), "the operation")?;
    ears.agree()?;
    if doc.can_undo() {
        let from = ears.polled.len();
        e2s(doc.undo())?;
        ears.poll(&doc);
        check(&after, &mirror(&doc)?, &ears.polled[from..].to_vec(), "undo")?;
        let from = ears.polled.len();
        let mid = mirror(&doc)?;
        e2s(doc.redo())?;
        ears.poll(&doc);
        check(&mid, &mirror(&doc)?, &ears.polled[from..].to_vec(), "redo")?;
        ears.agree()?;
    }
    Ok(())
}
