//! The abstract view of a paragraph document: what a user of the public API can observe.
//! Every contract of the harness is stated over this view, never over internals.
use text_document::*;

#[derive(Clone, Debug, PartialEq)]
pub struct ListV { pub key: usize, pub style: ListStyle, pub indent: u8 }

#[derive(Clone, Debug, PartialEq)]
pub struct Para { pub chars: Vec<(char, TextFormat)>, pub bf: BlockFormat, pub list: Option<ListV> }

#[derive(Clone, Debug, PartialEq)]
pub struct View { pub paras: Vec<Para> }

impl Para {
    pub fn text(&self) -> String { self.chars.iter().map(|c| c.0).collect() }
    pub fn len(&self) -> usize { self.chars.len() }
}

impl View {
    pub fn text(&self) -> String { self.paras.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n") }
    pub fn max_pos(&self) -> usize { self.paras.iter().map(|p| p.len() + 1).sum::<usize>().saturating_sub(1) }
    /// (paragraph, offset) of a position; a paragraph's end belongs to that paragraph.
    pub fn locate(&self, pos: usize) -> (usize, usize) {
        let mut s = 0;
        for (i, p) in self.paras.iter().enumerate() {
            if pos <= s + p.len() { return (i, pos - s); }
            s += p.len() + 1;
        }
        let l = self.paras.len() - 1;
        (l, self.paras[l].len())
    }
    pub fn start_of(&self, i: usize) -> usize { self.paras[..i].iter().map(|p| p.len() + 1).sum() }
    /// Lists are identified by order of first appearance.
    pub fn normalise(&mut self) {
        let mut seen: Vec<usize> = vec![];
        for p in self.paras.iter_mut() {
            if let Some(l) = &mut p.list {
                let i = match seen.iter().position(|x| *x == l.key) { Some(i) => i, None => { seen.push(l.key); seen.len() - 1 } };
                l.key = i;
            }
        }
    }
    pub fn normalised(mut self) -> View { self.normalise(); self }
    pub fn short(&self) -> String {
        let mut s = String::new();
        for p in &self.paras {
            s += &format!("[{:?}", p.text());
            let mut i = 0;
            while i < p.chars.len() {
                let mut j = i;
                while j < p.chars.len() && p.chars[j].1 == p.chars[i].1 { j += 1; }
                if p.chars[i].1 != TextFormat::default() { s += &format!(" {}..{}:{}", i, j, fmt_short(&p.chars[i].1)); }
                i = j;
            }
            if p.bf != BlockFormat::default() { s += &format!(" bf:{}", bf_short(&p.bf)); }
            if let Some(l) = &p.list { s += &format!(" list#{}:{:?}/{}", l.key, l.style, l.indent); }
            s += "]";
        }
        s
    }
}

pub fn strip_debug(s: String, dflt: String) -> String {
    // keep only the fields that differ from the default rendering
    let a: Vec<&str> = s.split(", ").collect();
    let b: Vec<&str> = dflt.split(", ").collect();
    if a.len() != b.len() { return s; }
    a.iter().zip(b.iter()).filter(|(x, y)| x != y).map(|(x, _)| *x).collect::<Vec<_>>().join(",")
}
pub fn fmt_short(f: &TextFormat) -> String { strip_debug(format!("{:?}", f), format!("{:?}", TextFormat::default())) }
pub fn bf_short(f: &BlockFormat) -> String { strip_debug(format!("{:?}", f), format!("{:?}", BlockFormat::default())) }

/// Read the view of a real document through its public API.
pub fn view(doc: &TextDocument) -> View {
    let mut paras = vec![];
    for b in doc.blocks() {
        let sn = b.snapshot();
        paras.push(para_of(&sn));
    }
    View { paras }.normalised()
}

pub fn para_of(sn: &BlockSnapshot) -> Para {
    let mut chars: Vec<(char, TextFormat)> = vec![];
    for f in &sn.fragments {
        match f {
            FragmentContent::Text { text, format, .. } => for c in text.chars() { chars.push((c, format.clone())); },
            FragmentContent::Image { format, .. } => chars.push(('\u{FFFC}', format.clone())),
        }
    }
    Para { chars, bf: sn.block_format.clone(), list: sn.list_info.as_ref().map(|l| ListV { key: l.list_id, style: l.style.clone(), indent: l.indent }) }
}
