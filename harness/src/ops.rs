//! Editing operations: how each runs on the real document, and its specification on the view.
use crate::model as m;
use crate::rng::Rng;
use crate::view::*;
use text_document::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Ins { p: usize, a: usize, t: String },
    InsFmt { p: usize, a: usize, t: String, f: TextFormat },
    Split { p: usize, a: usize },
    Del { p: usize, a: usize },
    DelNext { p: usize },
    DelPrev { p: usize },
    SetFmt { p: usize, a: usize, f: TextFormat },
    MergeFmt { p: usize, a: usize, f: TextFormat },
    BlockFmt { p: usize, a: usize, f: BlockFormat },
    Replace { q: String, t: String, all: bool, cs: bool },
    MakeList { p: usize, a: usize, s: ListStyle },
    NewItem { p: usize, s: ListStyle },
    Unlist { p: usize },
    JoinList { p: usize, q: usize },
    ListFmt { p: usize, s: ListStyle },
    Paste { p: usize, a: usize, from: usize, to: usize },
    PastePlain { p: usize, a: usize, t: String },
}

fn cur(doc: &TextDocument, p: usize, a: usize) -> TextCursor {
    let c = doc.cursor_at(a);
    c.set_position(p, MoveMode::KeepAnchor);
    c
}

impl Op {
    pub fn range(&self) -> (usize, usize) {
        match self {
            Op::Ins { p, a, .. } | Op::InsFmt { p, a, .. } | Op::Split { p, a } | Op::Del { p, a } | Op::SetFmt { p, a, .. }
            | Op::MergeFmt { p, a, .. } | Op::BlockFmt { p, a, .. } | Op::MakeList { p, a, .. } | Op::Paste { p, a, .. } | Op::PastePlain { p, a, .. } => (*p.min(a), *p.max(a)),
            Op::DelNext { p } | Op::DelPrev { p } | Op::NewItem { p, .. } | Op::Unlist { p } | Op::JoinList { p, .. } | Op::ListFmt { p, .. } => (*p, *p),
            Op::Replace { .. } => (0, 0),
        }
    }
    /// The cursor that performs the operation, positioned on the real document.
    pub fn cursor(&self, doc: &TextDocument) -> TextCursor {
        match self {
            Op::Ins { p, a, .. } | Op::InsFmt { p, a, .. } | Op::Split { p, a } | Op::Del { p, a } | Op::SetFmt { p, a, .. }
            | Op::MergeFmt { p, a, .. } | Op::BlockFmt { p, a, .. } | Op::MakeList { p, a, .. } | Op::Paste { p, a, .. } | Op::PastePlain { p, a, .. } => cur(doc, *p, *a),
            Op::DelNext { p } | Op::DelPrev { p } | Op::NewItem { p, .. } | Op::Unlist { p } | Op::JoinList { p, .. } | Op::ListFmt { p, .. } => doc.cursor_at(*p),
            Op::Replace { .. } => doc.cursor(),
        }
    }
    pub fn run(&self, doc: &TextDocument, c: &TextCursor) -> text_document::Result<()> {
        match self {
            Op::Ins { t, .. } => c.insert_text(t),
            Op::InsFmt { t, f, .. } => c.insert_formatted_text(t, f),
            Op::Split { .. } => c.insert_block(),
            Op::Del { .. } => c.remove_selected_text().map(|_| ()),
            Op::DelNext { .. } => c.delete_char(),
            Op::DelPrev { .. } => c.delete_previous_char(),
            Op::SetFmt { f, .. } => c.set_char_format(f),
            Op::MergeFmt { f, .. } => c.merge_char_format(f),
            Op::BlockFmt { f, .. } => c.set_block_format(f),
            Op::Replace { q, t, all, cs } => doc.replace_text(q, t, *all, &FindOptions { case_sensitive: *cs, ..Default::default() }).map(|_| ()),
            Op::MakeList { s, .. } => c.create_list(s.clone()),
            Op::NewItem { s, .. } => c.insert_list(s.clone()),
            Op::Unlist { .. } => c.remove_current_block_from_list(),
            Op::JoinList { q, .. } => match doc.cursor_at(*q).current_list() { Some(l) => c.add_current_block_to_list(l.id()), None => Err(anyhow::anyhow!("no list there")) },
            Op::ListFmt { s, .. } => c.set_current_list_format(&ListFormat { style: Some(s.clone()), ..Default::default() }),
            Op::Paste { from, to, .. } => { let f = cur(doc, *from, *to).selection(); c.insert_fragment(&f) }
            Op::PastePlain { t, .. } => c.insert_fragment(&DocumentFragment::from_plain_text(t)),
        }
    }
    pub fn apply(&self, doc: &TextDocument) -> text_document::Result<()> { let c = self.cursor(doc); self.run(doc, &c) }

    /// Specification: the view after the operation, and the replaced range with its new length
    /// (start, removed, added) in positions. None: the operation is not under a spec here.
    pub fn spec(&self, v: &View) -> Option<(View, Option<(usize, usize, usize)>)> {
        let (lo, hi) = self.range();
        let r = |v2: View, lo: usize, hi: usize, n: usize| Some((v2, Some((lo, hi - lo, n))));
        match self {
            Op::Ins { t, .. } => r(m::insert(v, lo, hi, t), lo, hi, t.chars().count()),
            Op::InsFmt { t, f, .. } => r(m::insert_formatted(v, lo, hi, t, &m::given(f)), lo, hi, t.chars().count()),
            Op::Split { .. } => r(m::split(v, lo, hi), lo, hi, 1),
            Op::Del { .. } => r(m::delete(v, lo, hi), lo, hi, 0),
            Op::DelNext { .. } => { let n = crate::words::next_grapheme(v, lo); r(m::delete(v, lo, n), lo, n, 0) }
            Op::DelPrev { .. } => { let n = crate::words::prev_grapheme(v, lo); r(m::delete(v, n, lo), n, lo, 0) }
            Op::SetFmt { f, .. } => Some((m::char_format(v, lo, hi, f, false), None)),
            Op::MergeFmt { f, .. } => Some((m::char_format(v, lo, hi, f, true), None)),
            Op::BlockFmt { f, .. } => Some((m::block_format(v, lo, hi, f), None)),
            Op::Replace { q, t, all, cs } => Some((crate::search::replace_spec(v, q, t, *all, *cs), None)),
            Op::MakeList { s, .. } => Some((m::make_list(v, lo, hi, s), None)),
            Op::Unlist { p } => Some((m::unlist(v, m::caret_para(v, *p)), None)),
            Op::JoinList { p, q } => {
                let l = v.paras[m::caret_para(v, *q)].list.clone()?;
                let mut w = v.clone();
                w.paras[m::caret_para(v, *p)].list = Some(l);
                Some((w.normalised(), None))
            }
            Op::ListFmt { p, s } => {
                let l = v.paras[m::caret_para(v, *p)].list.clone()?;
                let mut w = v.clone();
                for q in w.paras.iter_mut() { if let Some(x) = &mut q.list { if x.key == l.key { x.style = s.clone(); } } }
                Some((w, None))
            }
            Op::Paste { from, to, .. } => {
                let (f, t) = (*from.min(to), *from.max(to));
                if f == t { return Some((v.clone(), None)); }
                let s = m::slice(v, f, t);
                if s.iter().any(|p| p.bf != BlockFormat::default() || p.list.is_some()) { return None; }
                let n = s.iter().map(|p| p.len() + 1).sum::<usize>() - 1;
                r(m::paste(v, lo, hi, &s.into_iter().map(|p| p.chars).collect::<Vec<_>>()), lo, hi, n)
            }
            Op::PastePlain { t, .. } => {
                let s: Vec<Vec<_>> = t.split('\n').map(|l| l.chars().map(|c| (c, TextFormat::default())).collect()).collect();
                r(m::paste(v, lo, hi, &s), lo, hi, t.chars().count())
            }
            Op::NewItem { .. } => None,
        }
    }
}

pub const ALPHA: [char; 9] = ['a', 'b', 'c', ' ', 'é', '日', '😀', 'x', '.'];
pub const GRAPH: [&str; 12] = ["a", "b", " ", "e\u{301}", "👨‍👩‍👧", "🇫🇷", "日", "é", "x", ".", "_", "👋🏻"];
pub fn text(r: &mut Rng, lo: usize, n: usize) -> String { (0..r.range(lo, n)).map(|_| *r.pick(&ALPHA)).collect() }
pub fn gtext(r: &mut Rng, lo: usize, n: usize) -> String { (0..r.range(lo, n)).map(|_| *r.pick(&GRAPH)).collect() }
pub fn doc_text(r: &mut Rng, graphemes: bool) -> String {
    let n = r.below(4);
    (0..=n).map(|_| if r.chance(1, 5) { String::new() } else if graphemes { gtext(r, 1, 5) } else { text(r, 1, 6) }).collect::<Vec<_>>().join("\n")
}
pub fn style(r: &mut Rng) -> ListStyle {
    r.pick(&[ListStyle::Disc, ListStyle::Circle, ListStyle::Square, ListStyle::Decimal, ListStyle::LowerAlpha, ListStyle::UpperAlpha, ListStyle::LowerRoman, ListStyle::UpperRoman]).clone()
}
pub fn set_format(r: &mut Rng) -> TextFormat {
    let mut f = TextFormat::default();
    for _ in 0..r.range(1, 3) {
        match r.below(12) {
            0 => f.font_bold = Some(r.chance(2, 3)),
            1 => f.font_italic = Some(r.chance(2, 3)),
            2 => f.font_underline = Some(r.chance(2, 3)),
            3 => f.font_strikeout = Some(r.chance(2, 3)),
            4 => f.font_family = Some(r.pick(&["Serif", "Mono"]).to_string()),
            5 => f.font_point_size = Some(*r.pick(&[9u32, 12])),
            6 => f.font_weight = Some(*r.pick(&[400u32, 700])),
            7 => f.font_overline = Some(r.chance(2, 3)),
            8 => f.letter_spacing = Some(*r.pick(&[-1i32, 2])),
            9 => f.word_spacing = Some(*r.pick(&[-1i32, 2])),
            10 => f.underline_style = Some(r.pick(&[UnderlineStyle::SingleUnderline, UnderlineStyle::WaveUnderline]).clone()),
            _ => f.vertical_alignment = Some(r.pick(&[CharVerticalAlignment::SuperScript, CharVerticalAlignment::SubScript]).clone()),
        }
    }
    f
}
pub fn ins_format(r: &mut Rng) -> TextFormat {
    let mut f = TextFormat::default();
    if r.chance(1, 2) { f.font_bold = Some(true); }
    if r.chance(1, 3) { f.font_italic = Some(true); }
    if r.chance(1, 4) { f.font_underline = Some(true); }
    if r.chance(1, 4) { f.font_strikeout = Some(true); }
    if r.chance(1, 4) { f.font_family = Some("Serif".into()); }
    if r.chance(1, 4) { f.font_point_size = Some(9); }
    f
}
pub fn blk_format(r: &mut Rng) -> BlockFormat {
    let mut f = BlockFormat::default();
    for _ in 0..r.range(1, 2) {
        match r.below(10) {
            0 => f.heading_level = Some(r.below(7) as u8),
            1 => f.alignment = Some(r.pick(&[Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Justify]).clone()),
            2 => f.indent = Some(r.below(3) as u8),
            3 => f.top_margin = Some(r.below(4) as i32),
            4 => f.bottom_margin = Some(r.below(4) as i32),
            5 => f.left_margin = Some(r.below(4) as i32),
            6 => f.right_margin = Some(r.below(4) as i32),
            7 => f.text_indent = Some(r.below(4) as i32),
            8 => f.marker = Some(r.pick(&[MarkerType::Checked, MarkerType::Unchecked]).clone()),
            _ => f.is_code_block = Some(r.chance(1, 2)),
        }
    }
    f
}

/// Every operation kind, by number; suites pick subsets.
pub const TEXT_KINDS: &[u8] = &[0, 0, 0, 1, 2, 2, 3, 3, 4, 5];
pub const FORMAT_KINDS: &[u8] = &[0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8];
pub const LIST_KINDS: &[u8] = &[0, 2, 3, 10, 10, 12, 13, 14];
pub const ALL_KINDS: &[u8] = &[0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

pub fn gen_op(r: &mut Rng, v: &View, kinds: &[u8]) -> Op {
    let len = v.max_pos();
    // positions are grapheme boundaries, because cursors snap to them
    let mut pos = |r: &mut Rng| { let p = r.below(len + 1); crate::words::snap(v, p) };
    let p = pos(r);
    let b = pos(r);
    let a = if r.chance(1, 2) { p } else { b };
    match *r.pick(kinds) {
        0 => Op::Ins { p, a, t: text(r, 1, 4) },
        1 => Op::InsFmt { p, a, t: text(r, 0, 3), f: ins_format(r) },
        2 => Op::Split { p, a },
        3 => Op::Del { p, a: b },
        4 => Op::DelNext { p },
        5 => Op::DelPrev { p },
        6 => Op::SetFmt { p, a: b, f: set_format(r) },
        7 => Op::MergeFmt { p, a: b, f: set_format(r) },
        8 => Op::BlockFmt { p, a: b, f: blk_format(r) },
        9 => Op::Replace { q: text(r, 1, 2), t: text(r, 0, 3), all: r.chance(2, 3), cs: r.chance(1, 2) },
        10 => Op::MakeList { p, a: b, s: style(r) },
        11 => Op::NewItem { p, s: style(r) },
        12 => Op::Unlist { p },
        13 => Op::JoinList { p, q: b },
        14 => Op::ListFmt { p, s: style(r) },
        15 => Op::Paste { p, a, from: pos(r), to: pos(r) },
        _ => Op::PastePlain { p, a, t: doc_text(r, false) },
    }
}
