//! C18: exports spell the text and nothing else; importing the exported HTML gives the text and
//! its bold, italic, underline and strike-out back. Each export is read by a small decoder of its
//! own, written from the target language's rules and strict: what is not text has to be markup
//! that the decoder knows.
use crate::ensure;
use crate::ops::style;
use crate::rng::Rng;
use crate::run::*;
use crate::view::*;
use std::result::Result;
use text_document::*;

fn e2s<T>(r: text_document::Result<T>) -> Result<T, String> { r.map_err(|e| format!("{e:#}")) }
pub type Look = (bool, bool, bool, bool);
type Paras = Vec<Vec<(char, Look)>>;

fn text_of(p: &Paras) -> Vec<String> { p.iter().map(|x| x.iter().map(|c| c.0).collect()).collect() }
fn looks(v: &View) -> Paras {
    v.paras.iter().map(|p| p.chars.iter().map(|(c, f)| (*c, (f.font_bold == Some(true), f.font_italic == Some(true), f.font_underline == Some(true), f.font_strikeout == Some(true)))).collect()).collect()
}

/// Character data of HTML: every `<` opens a known tag, every `&` a known reference, and the other
/// characters that are markup in attribute values never stand alone.
pub fn read_html(s: &str) -> Result<Paras, String> {
    let mut out: Paras = vec![];
    let mut open: Vec<String> = vec![];
    let mut look = [0i32; 4];
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '<' {
            let end = rest.find('>').ok_or("a tag is not closed")?;
            let tag = &rest[1..end];
            rest = &rest[end + 1..];
            let (close, name) = match tag.strip_prefix('/') { Some(n) => (true, n), None => (false, tag.split(' ').next().unwrap()) };
            let attr = if close { "" } else { tag[name.len()..].trim() };
            ensure!(["html", "head", "body", "meta", "p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "strong", "em", "u", "s", "code", "pre", "table", "tr", "td", "br/"].contains(&name), "unexpected tag <{tag}>");
            ensure!(attr.is_empty() || attr == "charset=\"utf-8\"" || attr.starts_with("style=\"") || attr.starts_with("class=\"language-"), "unexpected attribute {attr:?}");
            if ["meta", "br/"].contains(&name) { continue; }
            if close { ensure!(open.pop().as_deref() == Some(name), "</{name}> closes nothing"); } else { open.push(name.into()); }
            if !close && (["p", "li", "td", "pre"].contains(&name) || (name.len() == 2 && name.starts_with('h') && name != "hr")) { out.push(vec![]); }
            if let Some(k) = ["strong", "em", "u", "s"].iter().position(|t| *t == name) { look[k] += if close { -1 } else { 1 }; }
            continue;
        }
        let (ch, n) = if c == '&' {
            let end = rest.find(';').ok_or("a reference is not closed")?;
            let ch = match &rest[1..end] {
                "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
                r if r.starts_with("#x") => u32::from_str_radix(&r[2..], 16).ok().and_then(char::from_u32).ok_or(format!("reference &{r};"))?,
                r if r.starts_with('#') => r[1..].parse().ok().and_then(char::from_u32).ok_or(format!("reference &{r};"))?,
                r => return Err(format!("unknown reference &{r};")),
            };
            (ch, end + 1)
        } else {
            ensure!(c != '>' && c != '\r', "{c:?} stands in the character data");
            (c, c.len_utf8())
        };
        rest = &rest[n..];
        let l = (look[0] > 0, look[1] > 0, look[2] > 0, look[3] > 0);
        // a fragment of one plain paragraph stands in the body by itself
        if out.is_empty() && open.last().map(|s| s.as_str()) != Some("head") { out.push(vec![]); }
        out.last_mut().ok_or(format!("{ch:?} outside of a paragraph"))?.push((ch, l));
    }
    ensure!(open.is_empty(), "{open:?} not closed");
    Ok(out)
}

/// LaTeX body text.
pub fn read_latex(s: &str) -> Result<Paras, String> {
    let mut out: Paras = vec![vec![]];
    let mut groups: Vec<usize> = vec![]; // index of the look, 4 for groups that change none
    let mut look = [0i32; 4];
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix("\n\n") { out.push(vec![]); rest = r; continue; }
        let l = (look[0] > 0, look[1] > 0, look[2] > 0, look[3] > 0);
        if c == '\\' {
            rest = &rest[1..];
            let word: String = rest.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
            if word.is_empty() {
                let x = rest.chars().next().ok_or("a lone backslash")?;
                ensure!("&%$#_{}".contains(x), "unexpected command \\{x}");
                out.last_mut().unwrap().push((x, l));
                rest = &rest[x.len_utf8()..];
                continue;
            }
            rest = rest[word.len()..].strip_prefix('{').ok_or(format!("\\{word} takes no argument"))?;
            let sym = match word.as_str() { "textbackslash" => Some('\\'), "textasciitilde" => Some('~'), "textasciicircum" => Some('^'), _ => None };
            if let Some(x) = sym {
                rest = rest.strip_prefix('}').ok_or(format!("\\{word} not ended"))?;
                out.last_mut().unwrap().push((x, l));
                continue;
            }
            let k = match word.as_str() { "textbf" => 0, "textit" => 1, "underline" => 2, "sout" => 3, "texttt" | "section" | "subsection" | "subsubsection" | "paragraph" => 4, w => return Err(format!("unexpected command \\{w}")) };
            if k < 4 { look[k] += 1; }
            groups.push(k);
            continue;
        }
        if c == '}' {
            let k = groups.pop().ok_or("a } closes nothing")?;
            if k < 4 { look[k] -= 1; }
        } else {
            ensure!(!"&%$#_{~^".contains(c), "{c:?} stands in the text");
            out.last_mut().unwrap().push((c, l));
        }
        rest = &rest[c.len_utf8()..];
    }
    ensure!(groups.is_empty(), "a group is not closed");
    Ok(out)
}

/// Inline Markdown: characters that can start a construct stand in the text only after a backslash.
/// What is left of emphasis delimiters and code spans is dropped; empty paragraphs do not show.
pub fn read_markdown(s: &str) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for (i, p) in s.split("\n\n").filter(|p| !p.is_empty()).enumerate() {
        let mut text = String::new();
        let mut p = p;
        let hashes = p.len() - p.trim_start_matches('#').len();
        if hashes > 0 { p = p[hashes..].strip_prefix(' ').ok_or(format!("paragraph {i} starts with # but is no heading"))?; }
        let c: Vec<char> = p.chars().collect();
        let mut k = 0;
        while k < c.len() {
            match c[k] {
                '\\' => {
                    let x = *c.get(k + 1).ok_or("a lone backslash at the end")?;
                    ensure!(x.is_ascii_punctuation(), "a backslash before {x:?}");
                    text.push(x);
                    k += 2;
                }
                '*' => k += 1,
                '~' => { ensure!(c.get(k + 1) == Some(&'~'), "a lone ~"); k += 2; }
                '`' => {
                    let n = c[k..].iter().take_while(|x| **x == '`').count();
                    let mut e = k + n;
                    loop {
                        while e < c.len() && c[e] != '`' { e += 1; }
                        let m = c[e..].iter().take_while(|x| **x == '`').count();
                        ensure!(m > 0, "a code span is not closed");
                        if m == n { break; }
                        e += m;
                    }
                    let mut code: &[char] = &c[k + n..e];
                    if code.len() > 2 && code[0] == ' ' && code[code.len() - 1] == ' ' && code.iter().any(|x| *x != ' ') { code = &code[1..code.len() - 1]; }
                    text.extend(code.iter());
                    k = e + n;
                }
                x => { ensure!(!"_[]<&|!#>+-".contains(x), "{x:?} stands in the text"); text.push(x); k += 1; }
            }
        }
        if !text.is_empty() { out.push(text); }
    }
    Ok(out)
}

pub fn check_exports(doc: &TextDocument, lists: bool) -> Result<(), String> {
    let want = looks(&view(doc));
    let texts = text_of(&want);
    let html = e2s(doc.to_html())?;
    let got = read_html(&html).map_err(|m| format!("HTML {html:?}: {m}"))?;
    ensure!(got == want, "HTML {html:?} reads {:?}, expected {texts:?} (or the same text with other formats)", text_of(&got));
    let f = e2s(DocumentFragment::from_document(doc))?;
    let fh = f.to_html();
    let got = read_html(&fh).map_err(|m| format!("fragment HTML {fh:?}: {m}"))?;
    // a fragment that has nothing to show is empty
    ensure!(got == want || (got.is_empty() && texts.iter().all(|t| t.is_empty())), "fragment HTML {fh:?} reads {:?}, expected {texts:?} (or the same text with other formats)", text_of(&got));
    if !lists {
        let shown: Vec<String> = texts.iter().filter(|t| !t.is_empty()).cloned().collect();
        let latex = e2s(doc.to_latex("article", false))?;
        let got = read_latex(&latex).map_err(|m| format!("LaTeX {latex:?}: {m}"))?;
        ensure!(got == want, "LaTeX {latex:?} reads {:?}, expected {texts:?} (or the same text with other formats)", text_of(&got));
        let full = e2s(doc.to_latex("report", true))?;
        ensure!(full.starts_with("\\documentclass{report}") && full.ends_with(&format!("\\begin{{document}}\n\n{latex}\n\n\\end{{document}}")), "the full LaTeX file is {full:?}");
        let md = e2s(doc.to_markdown())?;
        let got = read_markdown(&md).map_err(|m| format!("Markdown {md:?}: {m}"))?;
        ensure!(got == shown, "Markdown {md:?} reads {got:?}, expected {texts:?}");
        let md = f.to_markdown();
        let got = read_markdown(&md).map_err(|m| format!("fragment Markdown {md:?}: {m}"))?;
        ensure!(got == shown, "fragment Markdown {md:?} reads {got:?}, expected {texts:?}");
    }
    let back = TextDocument::new();
    e2s(e2s(back.set_html(&html))?.wait())?;
    let got = looks(&view(&back));
    ensure!(got == want, "importing {html:?} gives {:?}, expected {texts:?} (or the same text with other formats)", text_of(&got));
    Ok(())
}

const NASTY: [&str; 56] = ["&", "<", ">", "\"", "'", "\r", "\\", "%", "$", "#", "_", "{", "}", "~", "^", "*", "[", "]", "(", ")", "+", "-", ".", "!", "|", "`", "=", ":", "/", "@",
    " ", "  ", "\t", "a", "é", "日", "😀", "\u{301}", "\u{a0}", "\u{200d}", "&amp;", "&#60;", "<b>", "</p>", "<!--", "]]>", "\\end{document}", "**x**", "~~", "![a](b)", "[a](b)", "1.", "1)", "``", "- ", "&lt"];

fn dress(doc: &TextDocument, lo: usize, hi: usize, f: &TextFormat) -> Result<(), String> {
    let c = doc.cursor_at(lo);
    c.set_position(hi, MoveMode::KeepAnchor);
    e2s(c.merge_char_format(f))
}
fn look(k: usize) -> TextFormat {
    let mut f = TextFormat::default();
    if k & 1 != 0 { f.font_bold = Some(true); }
    if k & 2 != 0 { f.font_italic = Some(true); }
    if k & 4 != 0 { f.font_underline = Some(true); }
    if k & 8 != 0 { f.font_strikeout = Some(true); }
    f
}

/// Every ASCII character and every listed piece, alone and in company, under each of the looks.
pub fn enum_export(_r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let pieces: Vec<String> = (1u8..128).filter(|b| *b != b'\n' && *b != b'\r').map(|b| (b as char).to_string()).chain(NASTY.iter().map(|s| s.to_string())).collect();
    let n = pieces.len() as u64;
    let (p, k, shape) = (&pieces[(i % n) as usize], [0, 1, 2, 4, 8, 15][(i / n % 6) as usize], i / n / 6);
    let t = match shape { 0 => p.clone(), 1 => format!("x{p}y"), 2 => format!("{p}{p}"), _ => format!("{p}\n{p}z") };
    log.say(format!("{t:?} with look {k}"));
    log.nontrivial = true;
    let doc = TextDocument::new();
    if t.contains('\r') { e2s(doc.cursor().insert_text(&t.replace('\n', "")))?; } else { e2s(doc.set_plain_text(&t))?; }
    let end = doc.character_count() + doc.block_count() - 1;
    if k != 0 { dress(&doc, 0, end, &look(k))?; }
    check_exports(&doc, false)
}

pub fn rnd_export(r: &mut Rng, i: u64, log: &mut Log) -> Result<(), String> {
    let doc = TextDocument::new();
    let t = (0..r.range(1, 5)).map(|_| (0..r.below(9)).map(|_| *r.pick(&NASTY)).collect::<String>().replace('\r', "")).collect::<Vec<_>>().join("\n");
    e2s(doc.set_plain_text(&t))?;
    log.say(format!("{t:?}"));
    let end = doc.character_count() + doc.block_count() - 1;
    for _ in 0..r.below(5) {
        let (a, b) = (r.below(end + 1), r.below(end + 1));
        let (lo, hi) = (a.min(b), a.max(b));
        let mut f = look(r.below(16));
        if r.chance(1, 4) { f.font_bold = Some(false); }
        if r.chance(1, 5) { f.font_family = Some("monospace".into()); }
        log.say(format!("{lo}..{hi}: {}", fmt_short(&f)));
        let c = doc.cursor_at(lo);
        c.set_position(hi, MoveMode::KeepAnchor);
        if r.chance(1, 2) { e2s(c.set_char_format(&f))? } else { e2s(c.merge_char_format(&f))? }
    }
    for _ in 0..r.below(3) {
        let p = r.below(end + 1);
        let f = match r.below(4) {
            0 => BlockFormat { heading_level: Some(r.range(1, 6) as u8), ..Default::default() },
            1 => BlockFormat { alignment: Some(Alignment::Center), ..Default::default() },
            2 => BlockFormat { heading_level: Some(2), alignment: Some(Alignment::Right), ..Default::default() },
            _ => BlockFormat { alignment: Some(Alignment::Justify), ..Default::default() },
        };
        log.say(format!("at {p}: {}", bf_short(&f)));
        e2s(doc.cursor_at(p).set_block_format(&f))?;
    }
    let lists = r.chance(1, 3);
    if lists { for _ in 0..r.range(1, 3) { let (p, s) = (r.below(end + 1), style(r)); log.say(format!("{s:?} list at {p}")); e2s(doc.cursor_at(p).create_list(s).map(|_| ()))?; } }
    log.nontrivial = i > 0 && !t.is_empty();
    let (v, undo) = (view(&doc), doc.can_undo());
    check_exports(&doc, lists)?;
    ensure!(view(&doc) == v && doc.can_undo() == undo, "exporting changed the document");
    Ok(())
}
