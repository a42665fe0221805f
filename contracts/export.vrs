use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
#[verifier::external_body] // TRUSTED: str::chars
pub fn std_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@, r@.len() < usize::MAX { s.chars().collect() }
#[verifier::external_body] // TRUSTED: String::with_capacity
pub fn std_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body] // TRUSTED: String::push_str appends
pub fn std_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] // TRUSTED: String::push appends one character
pub fn std_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] // TRUSTED: str::replace of one character
pub fn std_replace(s: &str, c: char, t: &str) -> (r: String) ensures r@ == put(s@, c, t@) { s.replace(c, t) }

/// each character written by its own text
pub open spec fn written(s: Seq<char>, w: spec_fn(char) -> Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { w(s[0]) + written(s.skip(1), w) } }
pub proof fn written_push(s: Seq<char>, c: char, w: spec_fn(char) -> Seq<char>)
    ensures written(s.push(c), w) == written(s, w) + w(c),
    decreases s.len(),
{
    if s.len() == 0 { assert(s.push(c).skip(1) =~= seq![]); assert(written(s.push(c).skip(1), w) =~= seq![]); assert(written(s.push(c), w) =~= w(c)); assert(written(s, w) + w(c) =~= w(c)); }
    else { written_push(s.skip(1), c, w); assert(s.push(c).skip(1) =~= s.skip(1).push(c)); assert(written(s.push(c), w) =~= written(s, w) + w(c)); }
}
pub proof fn written_add(a: Seq<char>, b: Seq<char>, w: spec_fn(char) -> Seq<char>)
    ensures written(a + b, w) == written(a, w) + written(b, w),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(written(a, w) + written(b, w) =~= written(b, w)); }
    else { written_add(a.skip(1), b, w); assert((a + b).skip(1) =~= a.skip(1) + b); assert(written(a + b, w) =~= written(a, w) + written(b, w)); }
}
pub open spec fn put(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> { written(s, put_f(c, t)) }
pub open spec fn put_f(c: char, t: Seq<char>) -> spec_fn(char) -> Seq<char> { |x: char| if x == c { t } else { seq![x] } }
/// a text is read character by character through the escapes of the format; None where a character that is
/// active in the format stands bare
pub open spec fn read(s: Seq<char>, step: spec_fn(Seq<char>) -> Option<(char, int)>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Some(seq![]) } else {
        match step(s) {
            Some((c, n)) => if 0 < n <= s.len() { match read(s.skip(n), step) { Some(t) => Some(seq![c] + t), None => None } } else { None },
            None => None,
        }
    }
}
/// what is written for a character is read back as that character, whatever follows
pub open spec fn escapes(w: spec_fn(char) -> Seq<char>, step: spec_fn(Seq<char>) -> Option<(char, int)>) -> bool {
    forall|c: char, t: Seq<char>| #[trigger] step(w(c) + t) == Some((c, w(c).len() as int)) && w(c).len() > 0
}
pub proof fn read_back(s: Seq<char>, w: spec_fn(char) -> Seq<char>, step: spec_fn(Seq<char>) -> Option<(char, int)>)
    requires escapes(w, step),
    ensures read(written(s, w), step) == Some(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = written(s.skip(1), w);
        read_back(s.skip(1), w, step);
        assert(step(w(s[0]) + t) == Some((s[0], w(s[0]).len() as int)));
        assert((w(s[0]) + t).skip(w(s[0]).len() as int) =~= t);
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else { assert(s =~= seq![]); }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }

// ---- Markdown
pub open spec fn md_active(c: char) -> bool {
    c == '\\' || c == '`' || c == '*' || c == '_' || c == '{' || c == '}' || c == '[' || c == ']' || c == '(' || c == ')' || c == '#' || c == '+' || c == '-' || c == '.'
        || c == '!' || c == '|' || c == '~' || c == '<' || c == '>' || c == '&'
}
pub open spec fn md_write(c: char) -> Seq<char> { if md_active(c) { seq!['\\', c] } else { seq![c] } }
/// a backslash before a punctuation character stands for that character
pub open spec fn md_step(s: Seq<char>) -> Option<(char, int)> {
    if s[0] == '\\' && s.len() >= 2 && md_active(s[1]) { Some((s[1], 2)) } else if md_active(s[0]) { None } else { Some((s[0], 1)) }
}
pub proof fn md_escapes() ensures escapes(|c: char| md_write(c), |s: Seq<char>| md_step(s)) { }
//@ fn crates/document_io/src/use_cases/export_markdown_uc.rs escape_markdown
ensures r@ == written(s@, |c: char| md_write(c)), read(r@, |s: Seq<char>| md_step(s)) == Some(s@),
//@ ret r
//@ rw String::with_capacity($n) => std_with_capacity(0)
//@ rw s.chars() => std_chars(s)
//@ rw result.push($c) => std_push(&mut result, $c)
//@ loop 0 it
invariant it.seq() == s@, result@ == written(s@.take(it.index@ as int), |c: char| md_write(c)),
//@ loop 0 bottom
let k = it.index@ as int;
written_push(s@.take(k), c, |c: char| md_write(c));
assert(s@.take(k).push(c) =~= s@.take(k + 1));
assert(result@ =~= written(s@.take(k), |c: char| md_write(c)) + md_write(c));
//@ loop 0 after
assert(s@.take(s@.len() as int) =~= s@);
md_escapes();
read_back(s@, |c: char| md_write(c), |s: Seq<char>| md_step(s));
//@ end
// ---- LaTeX
pub open spec fn tex_write(c: char) -> Seq<char> {
    if c == '\\' { "\\textbackslash{}"@ } else if c == '&' { "\\&"@ } else if c == '%' { "\\%"@ } else if c == '$' { "\\$"@ } else if c == '#' { "\\#"@ } else if c == '_' { "\\_"@ } else if c == '{' { "\\{"@ } else if c == '}' { "\\}"@ } else if c == '~' { "\\textasciitilde{}"@ } else if c == '^' { "\\textasciicircum{}"@ } else { seq![c] }
}
pub open spec fn tex_active(c: char) -> bool { c == '\\' || c == '&' || c == '%' || c == '$' || c == '#' || c == '_' || c == '{' || c == '}' || c == '~' || c == '^' }
/// the commands that typeset a special character, and the characters that typeset as themselves
pub open spec fn tex_step(s: Seq<char>) -> Option<(char, int)> {
    if starts(s, "\\textbackslash{}"@) { Some(('\\', 16)) } else if starts(s, "\\&"@) { Some(('&', 2)) } else if starts(s, "\\%"@) { Some(('%', 2)) } else if starts(s, "\\$"@) { Some(('$', 2)) } else if starts(s, "\\#"@) { Some(('#', 2)) } else if starts(s, "\\_"@) { Some(('_', 2)) } else if starts(s, "\\{"@) { Some(('{', 2)) } else if starts(s, "\\}"@) { Some(('}', 2)) } else if starts(s, "\\textasciitilde{}"@) { Some(('~', 17)) } else if starts(s, "\\textasciicircum{}"@) { Some(('^', 18)) } else if tex_active(s[0]) { None } else { Some((s[0], 1)) }
}
pub proof fn tex_escapes()
    ensures escapes(|c: char| tex_write(c), |s: Seq<char>| tex_step(s)),
{
    reveal_strlit("\\textbackslash{}"); reveal_strlit("\\&"); reveal_strlit("\\%"); reveal_strlit("\\$"); reveal_strlit("\\#"); reveal_strlit("\\_"); reveal_strlit("\\{"); reveal_strlit("\\}"); reveal_strlit("\\textasciitilde{}"); reveal_strlit("\\textasciicircum{}");
    assert forall|c: char, t: Seq<char>| tex_step(#[trigger] (tex_write(c) + t)) == Some((c, tex_write(c).len() as int)) && tex_write(c).len() > 0 by { tex_one(c, t); }
}
pub proof fn tex_one(c: char, t: Seq<char>)
    ensures tex_step(tex_write(c) + t) == Some((c, tex_write(c).len() as int)), tex_write(c).len() > 0,
{
    reveal_strlit("\\textbackslash{}"); reveal_strlit("\\&"); reveal_strlit("\\%"); reveal_strlit("\\$"); reveal_strlit("\\#"); reveal_strlit("\\_"); reveal_strlit("\\{"); reveal_strlit("\\}"); reveal_strlit("\\textasciitilde{}"); reveal_strlit("\\textasciicircum{}");
    let s = tex_write(c) + t;
    if c == '\\' { assert(s.take(16) =~= "\\textbackslash{}"@); assert(s[1] == "\\textbackslash{}"@[1]); }
    if c == '&' { assert(s.take(2) =~= "\\&"@); assert(s[1] == "\\&"@[1]); }
    if c == '%' { assert(s.take(2) =~= "\\%"@); assert(s[1] == "\\%"@[1]); }
    if c == '$' { assert(s.take(2) =~= "\\$"@); assert(s[1] == "\\$"@[1]); }
    if c == '#' { assert(s.take(2) =~= "\\#"@); assert(s[1] == "\\#"@[1]); }
    if c == '_' { assert(s.take(2) =~= "\\_"@); assert(s[1] == "\\_"@[1]); }
    if c == '{' { assert(s.take(2) =~= "\\{"@); assert(s[1] == "\\{"@[1]); }
    if c == '}' { assert(s.take(2) =~= "\\}"@); assert(s[1] == "\\}"@[1]); }
    if c == '~' { assert(s.take(17) =~= "\\textasciitilde{}"@); assert(s[1] == "\\textasciitilde{}"@[1]); }
    if c == '^' { assert(s.take(18) =~= "\\textasciicircum{}"@); assert(s[1] == "\\textasciicircum{}"@[1]); }
    if starts(s, "\\textbackslash{}"@) { assert(s[0] == s.take(16)[0]); assert(s[1] == s.take(16)[1]); assert(s[2] == "\\textbackslash{}"@[2] || 16 <= 2); assert(s[5] == s.take(16)[5]); assert(s[10] == s.take(16)[10]); }
    if starts(s, "\\&"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\&"@[2] || 2 <= 2);  }
    if starts(s, "\\%"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\%"@[2] || 2 <= 2);  }
    if starts(s, "\\$"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\$"@[2] || 2 <= 2);  }
    if starts(s, "\\#"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\#"@[2] || 2 <= 2);  }
    if starts(s, "\\_"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\_"@[2] || 2 <= 2);  }
    if starts(s, "\\{"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\{"@[2] || 2 <= 2);  }
    if starts(s, "\\}"@) { assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]); assert(s[2] == "\\}"@[2] || 2 <= 2);  }
    if starts(s, "\\textasciitilde{}"@) { assert(s[0] == s.take(17)[0]); assert(s[1] == s.take(17)[1]); assert(s[2] == "\\textasciitilde{}"@[2] || 17 <= 2); assert(s[5] == s.take(17)[5]); assert(s[10] == s.take(17)[10]); }
    if starts(s, "\\textasciicircum{}"@) { assert(s[0] == s.take(18)[0]); assert(s[1] == s.take(18)[1]); assert(s[2] == "\\textasciicircum{}"@[2] || 18 <= 2); assert(s[5] == s.take(18)[5]); assert(s[10] == s.take(18)[10]); }
}
//@ fn crates/document_io/src/use_cases/export_latex_uc.rs escape_latex
ensures r@ == written(s@, |c: char| tex_write(c)), read(r@, |s: Seq<char>| tex_step(s)) == Some(s@),
//@ ret r
//@ rw String::with_capacity($n) => std_with_capacity(0)
//@ rw s.chars() => std_chars(s)
//@ rw result.push($c) => std_push(&mut result, $c)
//@ rw result.push_str($c) => std_push_str(&mut result, $c)
//@ loop 0 it
invariant it.seq() == s@, result@ == written(s@.take(it.index@ as int), |c: char| tex_write(c)),
//@ loop 0 bottom
let k = it.index@ as int;
written_push(s@.take(k), ch, |c: char| tex_write(c));
assert(s@.take(k).push(ch) =~= s@.take(k + 1));
assert(result@ =~= written(s@.take(k), |c: char| tex_write(c)) + tex_write(ch));
//@ loop 0 after
assert(s@.take(s@.len() as int) =~= s@);
tex_escapes();
read_back(s@, |c: char| tex_write(c), |s: Seq<char>| tex_step(s));
//@ end
// ---- HTML
pub open spec fn html_write(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else if c == '"' { "&quot;"@ } else if c == '\'' { "&#x27;"@ } else if c == '\r' { "&#13;"@ } else { seq![c] }
}
/// character references, and characters that are neither markup nor quotes nor changed by line-end normalisation
pub open spec fn html_step(s: Seq<char>) -> Option<(char, int)> {
    if starts(s, "&amp;"@) { Some(('&', 5)) } else if starts(s, "&lt;"@) { Some(('<', 4)) } else if starts(s, "&gt;"@) { Some(('>', 4)) } else if starts(s, "&quot;"@) { Some(('"', 6)) } else if starts(s, "&#x27;"@) { Some(('\'', 6)) } else if starts(s, "&#13;"@) { Some(('\r', 5)) } else if s[0] == '&' || s[0] == '<' || s[0] == '>' || s[0] == '"' || s[0] == '\'' || s[0] == '\r' { None } else { Some((s[0], 1)) }
}
pub proof fn html_one(c: char, t: Seq<char>)
    ensures html_step(html_write(c) + t) == Some((c, html_write(c).len() as int)), html_write(c).len() > 0,
{
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#x27;"); reveal_strlit("&#13;");
    let s = html_write(c) + t;
    if c == '&' { assert(s.take(5) =~= "&amp;"@); assert(s[1] == "&amp;"@[1]); assert(s[2] == "&amp;"@[2]); }
    if c == '<' { assert(s.take(4) =~= "&lt;"@); assert(s[1] == "&lt;"@[1]); assert(s[2] == "&lt;"@[2]); }
    if c == '>' { assert(s.take(4) =~= "&gt;"@); assert(s[1] == "&gt;"@[1]); assert(s[2] == "&gt;"@[2]); }
    if c == '"' { assert(s.take(6) =~= "&quot;"@); assert(s[1] == "&quot;"@[1]); assert(s[2] == "&quot;"@[2]); }
    if c == '\'' { assert(s.take(6) =~= "&#x27;"@); assert(s[1] == "&#x27;"@[1]); assert(s[2] == "&#x27;"@[2]); }
    if c == '\r' { assert(s.take(5) =~= "&#13;"@); assert(s[1] == "&#13;"@[1]); assert(s[2] == "&#13;"@[2]); }
    if starts(s, "&amp;"@) { assert(s[0] == s.take(5)[0]); assert(s[1] == s.take(5)[1]); assert(s[2] == s.take(5)[2]); }
    if starts(s, "&lt;"@) { assert(s[0] == s.take(4)[0]); assert(s[1] == s.take(4)[1]); assert(s[2] == s.take(4)[2]); }
    if starts(s, "&gt;"@) { assert(s[0] == s.take(4)[0]); assert(s[1] == s.take(4)[1]); assert(s[2] == s.take(4)[2]); }
    if starts(s, "&quot;"@) { assert(s[0] == s.take(6)[0]); assert(s[1] == s.take(6)[1]); assert(s[2] == s.take(6)[2]); }
    if starts(s, "&#x27;"@) { assert(s[0] == s.take(6)[0]); assert(s[1] == s.take(6)[1]); assert(s[2] == s.take(6)[2]); }
    if starts(s, "&#13;"@) { assert(s[0] == s.take(5)[0]); assert(s[1] == s.take(5)[1]); assert(s[2] == s.take(5)[2]); }
}
pub proof fn html_escapes()
    ensures escapes(|c: char| html_write(c), |s: Seq<char>| html_step(s)),
{
    assert forall|c: char, t: Seq<char>| html_step(#[trigger] (html_write(c) + t)) == Some((c, html_write(c).len() as int)) && html_write(c).len() > 0 by { html_one(c, t); }
}
pub open spec fn html_stage1(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else { seq![c] }
}
pub open spec fn html_stage2(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else { seq![c] }
}
pub open spec fn html_stage3(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else { seq![c] }
}
pub open spec fn html_stage4(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else if c == '"' { "&quot;"@ } else { seq![c] }
}
pub open spec fn html_stage5(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else if c == '"' { "&quot;"@ } else if c == '\'' { "&#x27;"@ } else { seq![c] }
}
pub open spec fn html_stage6(c: char) -> Seq<char> {
    if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else if c == '"' { "&quot;"@ } else if c == '\'' { "&#x27;"@ } else if c == '\r' { "&#13;"@ } else { seq![c] }
}
/// writing the characters and then replacing one that no written text holds
pub proof fn put_after(s: Seq<char>, w: spec_fn(char) -> Seq<char>, v: spec_fn(char) -> Seq<char>, x: char, t: Seq<char>)
    requires forall|c: char| #[trigger] v(c) == put(w(c), x, t),
    ensures put(written(s, w), x, t) == written(s, v),
    decreases s.len(),
{
    if s.len() > 0 {
        put_after(s.skip(1), w, v, x, t);
        written_add(w(s[0]), written(s.skip(1), w), put_f(x, t));
    }
}
pub proof fn put_one(c: char, x: char, t: Seq<char>) ensures put(seq![c], x, t) == if c == x { t } else { seq![c] }
{ let f = put_f(x, t); assert(seq![c].skip(1) =~= seq![]); assert(written(seq![c].skip(1), f) =~= seq![]); assert(put(seq![c], x, t) =~= f(c)); }
pub proof fn put_none(s: Seq<char>, x: char, t: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != x,
    ensures put(s, x, t) == s,
    decreases s.len(),
{
    if s.len() > 0 { put_none(s.skip(1), x, t); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(put(s, x, t) =~= s); }
}
pub proof fn html_stages(s: Seq<char>)
    ensures
        put(s, '&', "&amp;"@) == written(s, |c: char| html_stage1(c)),
        put(written(s, |c: char| html_stage1(c)), '<', "&lt;"@) == written(s, |c: char| html_stage2(c)),
        put(written(s, |c: char| html_stage2(c)), '>', "&gt;"@) == written(s, |c: char| html_stage3(c)),
        put(written(s, |c: char| html_stage3(c)), '"', "&quot;"@) == written(s, |c: char| html_stage4(c)),
        put(written(s, |c: char| html_stage4(c)), '\'', "&#x27;"@) == written(s, |c: char| html_stage5(c)),
        put(written(s, |c: char| html_stage5(c)), '\r', "&#13;"@) == written(s, |c: char| html_stage6(c)),
        written(s, |c: char| html_stage6(c)) == written(s, |c: char| html_write(c)),
{
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#x27;"); reveal_strlit("&#13;");
    same_written(s, put_f('&', "&amp;"@), |c: char| html_stage1(c));
    same_written(s, |c: char| html_stage6(c), |c: char| html_write(c));
    assert forall|c: char| #[trigger] html_stage2(c) == put(html_stage1(c), '<', "&lt;"@) by {
        if c == '&' { put_none("&amp;"@, '<', "&lt;"@); }
        if c != '&' { put_one(c, '<', "&lt;"@); }
    }
    put_after(s, |c: char| html_stage1(c), |c: char| html_stage2(c), '<', "&lt;"@);
    assert forall|c: char| #[trigger] html_stage3(c) == put(html_stage2(c), '>', "&gt;"@) by {
        if c == '&' { put_none("&amp;"@, '>', "&gt;"@); }
        if c == '<' { put_none("&lt;"@, '>', "&gt;"@); }
        if c != '&' && c != '<' { put_one(c, '>', "&gt;"@); }
    }
    put_after(s, |c: char| html_stage2(c), |c: char| html_stage3(c), '>', "&gt;"@);
    assert forall|c: char| #[trigger] html_stage4(c) == put(html_stage3(c), '"', "&quot;"@) by {
        if c == '&' { put_none("&amp;"@, '"', "&quot;"@); }
        if c == '<' { put_none("&lt;"@, '"', "&quot;"@); }
        if c == '>' { put_none("&gt;"@, '"', "&quot;"@); }
        if c != '&' && c != '<' && c != '>' { put_one(c, '"', "&quot;"@); }
    }
    put_after(s, |c: char| html_stage3(c), |c: char| html_stage4(c), '"', "&quot;"@);
    assert forall|c: char| #[trigger] html_stage5(c) == put(html_stage4(c), '\'', "&#x27;"@) by {
        if c == '&' { put_none("&amp;"@, '\'', "&#x27;"@); }
        if c == '<' { put_none("&lt;"@, '\'', "&#x27;"@); }
        if c == '>' { put_none("&gt;"@, '\'', "&#x27;"@); }
        if c == '"' { put_none("&quot;"@, '\'', "&#x27;"@); }
        if c != '&' && c != '<' && c != '>' && c != '"' { put_one(c, '\'', "&#x27;"@); }
    }
    put_after(s, |c: char| html_stage4(c), |c: char| html_stage5(c), '\'', "&#x27;"@);
    assert forall|c: char| #[trigger] html_stage6(c) == put(html_stage5(c), '\r', "&#13;"@) by {
        if c == '&' { put_none("&amp;"@, '\r', "&#13;"@); }
        if c == '<' { put_none("&lt;"@, '\r', "&#13;"@); }
        if c == '>' { put_none("&gt;"@, '\r', "&#13;"@); }
        if c == '"' { put_none("&quot;"@, '\r', "&#13;"@); }
        if c == '\'' { put_none("&#x27;"@, '\r', "&#13;"@); }
        if c != '&' && c != '<' && c != '>' && c != '"' && c != '\'' { put_one(c, '\r', "&#13;"@); }
    }
    put_after(s, |c: char| html_stage5(c), |c: char| html_stage6(c), '\r', "&#13;"@);
}
pub proof fn same_written(s: Seq<char>, f: spec_fn(char) -> Seq<char>, g: spec_fn(char) -> Seq<char>)
    requires forall|c: char| #[trigger] f(c) == g(c),
    ensures written(s, f) == written(s, g),
    decreases s.len(),
{ if s.len() > 0 { same_written(s.skip(1), f, g); } }
//@ fn crates/document_io/src/use_cases/export_html_uc.rs escape_html
ensures r@ == written(s@, |c: char| html_write(c)), read(r@, |s: Seq<char>| html_step(s)) == Some(s@),
//@ ret r
//@ rw $s.replace($c, $t) => std_replace(&$s, $c, $t)
//@ top
html_stages(s@); html_escapes(); read_back(s@, |c: char| html_write(c), |s: Seq<char>| html_step(s));
//@ end

// ---- Markdown code spans
pub open spec fn ticks(s: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] s[i] == '`' }
pub open spec fn fence(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| '`') }
/// the padding a reader of Markdown takes off
pub open spec fn unpadded(b: Seq<char>) -> Seq<char> {
    if b.len() >= 2 && b[0] == ' ' && b.last() == ' ' && (exists|i: int| 0 <= i < b.len() && #[trigger] b[i] != ' ') { b.subrange(1, b.len() - 1) } else { b }
}
/// r is a fence, a body in which no run of backticks reaches the length of the fence and whose ends are no backticks, and the fence again;
/// without its padding the body is s
pub open spec fn is_code(r: Seq<char>, s: Seq<char>, n: int, body: Seq<char>) -> bool {
    &&& n >= 1 && r == fence(n) + body + fence(n)
    &&& forall|a: int, b: int| 0 <= a < b <= body.len() && #[trigger] ticks(body, a, b) ==> b - a < n
    &&& body.len() > 0 && body[0] != '`' && body.last() != '`'
    &&& unpadded(body) == s
}
/// length of the run of backticks at the end, and of the longest run
pub open spec fn tail_run(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 || s.last() != '`' { 0 } else { tail_run(s.drop_last()) + 1 } }
pub open spec fn longest_run(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { let a = longest_run(s.drop_last()); let b = tail_run(s); if a >= b { a } else { b } } }
pub open spec fn md_pad(s: Seq<char>) -> Seq<char> {
    if s[0] == '`' || s.last() == '`' || (s[0] == ' ' && s.last() == ' ' && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] != ' ') { seq![' '] } else { seq![] }
}
pub open spec fn md_code(s: Seq<char>) -> Seq<char> { fence(longest_run(s) + 1) + (md_pad(s) + s + md_pad(s)) + fence(longest_run(s) + 1) }
#[verifier::external_body] // TRUSTED: Ord::max
pub fn std_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { a.max(b) }
#[verifier::external_body] // TRUSTED: str::repeat
pub fn std_repeat_tick(n: usize) -> (r: String) ensures r@ == fence(n as int) { "`".repeat(n) }
#[verifier::external_body] // TRUSTED: str::starts_with a character
pub fn std_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body] // TRUSTED: str::ends_with a character
pub fn std_ends_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body] // TRUSTED: chars().any
pub fn std_any<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
{ s.chars().any(f) }
#[verifier::external_body] // TRUSTED: format! of five strings in a row
pub fn std_concat5(a: &str, b: &str, c: &str, d: &str, e: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ + e@ { format!("{a}{b}{c}{d}{e}") }
//@ fn crates/document_io/src/use_cases/export_markdown_uc.rs longest_backtick_run
ensures forall|a: int, b: int| 0 <= a <= b <= s@.len() && #[trigger] ticks(s@, a, b) ==> b - a <= r, r < usize::MAX, r == longest_run(s@),
//@ ret r
//@ rw s.chars() => std_chars(s)
//@ rw longest.max(run) => std_max(longest, run)
//@ loop 0 it
invariant
    it.seq() == s@, s@.len() < usize::MAX, run <= it.index@, longest <= it.index@, run <= longest,
    run == tail_run(s@.take(it.index@ as int)), longest == longest_run(s@.take(it.index@ as int)),
    forall|a: int| 0 <= a <= it.index@ && #[trigger] ticks(s@, a, it.index@ as int) ==> it.index@ - a <= run,
    forall|a: int, b: int| 0 <= a <= b <= it.index@ && #[trigger] ticks(s@, a, b) ==> b - a <= longest,
//@ loop 0 top
let k = it.index@ as int;
assert forall|a: int| 0 <= a <= k && ticks(s@, a, k + 1) implies #[trigger] ticks(s@, a, k) && s@[k] == '`' by { }
//@ loop 0 after
assert(s@.take(s@.len() as int) =~= s@);
//@ loop 0 bottom
let k = it.index@ as int;
assert(s@.take(k + 1).drop_last() =~= s@.take(k)); assert(s@.take(k + 1).last() == c);
assert forall|a: int| 0 <= a <= k + 1 && #[trigger] ticks(s@, a, k + 1) implies k + 1 - a <= run by { if a <= k { assert(s@[k] == '`'); assert(ticks(s@, a, k)); } }
//@ end
//@ fn crates/document_io/src/use_cases/export_markdown_uc.rs code_span
requires s@.len() > 0,
ensures r@ == md_code(s@), is_code(r@, s@, longest_run(s@) + 1, md_pad(s@) + s@ + md_pad(s@)),
//@ ret r
//@ rw "`".repeat($n) => std_repeat_tick($n)
//@ rw s.starts_with($c) => std_starts_with(s, $c)
//@ rw s.ends_with($c) => std_ends_with(s, $c)
//@ rw s.chars().any(|$p| $b) => std_any(s, closure« -> (b: bool) ensures b == (c != ' ')»(|c: char| { let $p = c; $b }))
//@ rw format!("{fence}{pad}{s}{pad}{fence}") => { proof«reveal_strlit(" "); reveal_strlit(""); assert(pad@ =~= if padded { seq![' '] } else { seq![] }); code_body(s@, pad@, fence@.len() as int, padded);» let made = std_concat5(&fence, pad, s, pad, &fence); proof«assert(made@ =~= crate::fence(fence@.len() as int) + (pad@ + s@ + pad@) + crate::fence(fence@.len() as int)); assert(is_code(made@, s@, fence@.len() as int, pad@ + s@ + pad@));» made }
//@ end
pub proof fn code_body(s: Seq<char>, pad: Seq<char>, n: int, padded: bool)
    requires
        s.len() > 0, forall|a: int, b: int| 0 <= a <= b <= s.len() && #[trigger] ticks(s, a, b) ==> b - a < n, n >= 1,
        pad == if padded { seq![' '] } else { seq![] },
        padded == (s[0] == '`' || s.last() == '`' || (s[0] == ' ' && s.last() == ' ' && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] != ' ')),
    ensures is_code(fence(n) + (pad + s + pad) + fence(n), s, n, pad + s + pad),
{
    let body = pad + s + pad;
    if padded {
        assert(body[0] == ' ' && body.last() == ' ');
        assert forall|a: int, b: int| 0 <= a < b <= body.len() && #[trigger] ticks(body, a, b) implies b - a < n by {
            assert(body[a] == '`' && body[b - 1] == '`');
            assert(ticks(s, a - 1, b - 1)) by { assert forall|i: int| a - 1 <= i < b - 1 implies #[trigger] s[i] == '`' by { assert(body[i + 1] == s[i]); } }
        }
        assert(exists|i: int| 0 <= i < s.len() && #[trigger] s[i] != ' ') by { if s[0] == '`' { assert(s[0] != ' '); } else if s.last() == '`' { assert(s[s.len() - 1] != ' '); } }
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] != ' ';
        assert(body[i + 1] == s[i]);
        assert(body.subrange(1, body.len() - 1) =~= s);
    } else {
        assert(body =~= s);
        assert forall|a: int, b: int| 0 <= a < b <= body.len() && #[trigger] ticks(body, a, b) implies b - a < n by { assert(ticks(s, a, b)); }
    }
}

// ---- Markdown inline text
//@ item crates/common/src/entities.rs UnderlineStyle
//@ item crates/common/src/entities.rs CharVerticalAlignment
//@ item crates/common/src/format_runs.rs InlineContent
//@ item crates/common/src/format_runs.rs InlineSegment
impl Clone for InlineSegment {
    #[verifier::external_body] // TRUSTED: derive(Clone) returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn mono(o: Option<String>) -> bool { o is Some && o->Some_0@ == "monospace"@ }
pub open spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body] // TRUSTED: comparing an optional string with a literal
pub fn std_is_mono(o: &Option<String>) -> (r: bool) ensures r == mono(*o) { o.as_deref() == Some("monospace") }
#[verifier::external_body] // TRUSTED: PartialEq of optional strings compares the texts
pub fn std_same_text(a: &Option<String>, b: &Option<String>) -> (r: bool) ensures r == (text_of(*a) == text_of(*b)) { a == b }
pub fn std_is_true(x: Option<bool>) -> (r: bool) ensures r == (x == Some(true)) { match x { Some(b) => b, None => false } }
/// what Markdown can show of a segment's format
pub struct Look { pub mono: bool, pub strike: bool, pub bold: bool, pub italic: bool, pub href: Option<Seq<char>> }
pub open spec fn look(e: InlineSegment) -> Look {
    Look { mono: mono(e.fmt_font_family), strike: e.fmt_font_strikeout == Some(true), bold: e.fmt_font_bold == Some(true), italic: e.fmt_font_italic == Some(true), href: text_of(e.fmt_anchor_href) }
}
pub enum Glyph { Char(char), Image(Seq<char>, i64, i64, i64) }
pub open spec fn glyphs(c: InlineContent) -> Seq<Glyph> {
    match c {
        InlineContent::Text(t) => t@.map_values(|x: char| Glyph::Char(x)),
        InlineContent::Image { name, width, height, quality } => seq![Glyph::Image(name@, width, height, quality)],
        InlineContent::Empty => seq![],
    }
}
pub open spec fn cells(e: InlineSegment) -> Seq<(Glyph, Look)> { glyphs(e.content).map_values(|g: Glyph| (g, look(e))) }
/// the characters and images in order, each with its look
pub open spec fn flat(v: Seq<InlineSegment>) -> Seq<(Glyph, Look)>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { flat(v.drop_last()) + cells(v.last()) } }
/// no two neighbouring texts look alike
pub open spec fn apart(v: Seq<InlineSegment>) -> bool {
    forall|i: int| 0 <= i < v.len() - 1 ==> !((#[trigger] v[i]).content is Text && v[i + 1].content is Text && look(v[i]) == look(v[i + 1]))
}
pub fn std_is_text(c: &InlineContent) -> (r: bool) ensures r == (*c is Text) { match c { InlineContent::Text(_) => true, _ => false } }
pub proof fn flat_push(v: Seq<InlineSegment>, e: InlineSegment) ensures flat(v.push(e)) == flat(v) + cells(e) { assert(v.push(e).drop_last() =~= v); }
pub proof fn joined(a: InlineSegment, b: InlineSegment, m: InlineSegment)
    requires a.content is Text, b.content is Text, m.content is Text, look(a) == look(b), look(m) == look(a), m.content->Text_0@ == a.content->Text_0@ + b.content->Text_0@,
    ensures cells(m) == cells(a) + cells(b),
{ assert(cells(m) =~= cells(a) + cells(b)); }
//@ fn crates/document_io/src/use_cases/export_markdown_uc.rs merge_alike
ensures flat(r@) == flat(elements@), apart(r@),
//@ ret r
//@ rwstmt if let Some(last) = merged.last_mut() && let (InlineContent::Text(t), InlineContent::Text(next)) = (&mut last.content, &elem.content) && $c { $b } else { $e } => let joins = match merged.last() { Some(last) => std_is_text(&last.content) && std_is_text(&elem.content) && $c, None => false }; if joins { let mut last = merged.pop().unwrap(); if let InlineContent::Text(mut owned) = last.content { if let InlineContent::Text(next) = &elem.content { let t = &mut owned; $b } last.content = InlineContent::Text(owned); } merged.push(last); } else { $e }
//@ rw $x.as_deref() == Some("monospace") => std_is_mono(&$x)
//@ rw $x == Some(true) => std_is_true($x)
//@ rw last.fmt_anchor_href == elem.fmt_anchor_href => std_same_text(&last.fmt_anchor_href, &elem.fmt_anchor_href)
//@ rw t.push_str(next) => std_push_str(t, next)
//@ loop 0 it
invariant
    it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
    flat(merged@) == flat(elements@.take(it.index@ as int)), apart(merged@),
//@ loop 0 top
//raw
let ghost was = merged@; let ghost k = it.index@ as int;
proof { assert(elements@.take(k + 1).drop_last() =~= elements@.take(k)); assert(elements@.take(k + 1).last() == *elem); }
//@ loop 0 bottom
if merged@.len() == was.len() {
    let a = was.last(); let m = merged@.last();
    assert(was.drop_last() =~= merged@.drop_last());
    joined(a, *elem, m);
    assert(flat(merged@) =~= flat(was) + cells(*elem));
} else {
    flat_push(was, *elem);
    assert(merged@ =~= was.push(*elem));
}
//@ loop 0 after
assert(elements@.take(elements@.len() as int) =~= elements@);
//@ end
// ---- inline text
pub struct Error {}
pub struct ExportMarkdownUseCase {}
//@ rwtype Result<String> => Result<String, Error>
#[verifier::external_body] // TRUSTED: format! of three strings in a row
pub fn std_wrap(a: &str, t: &String, b: &str) -> (r: String) ensures r@ == a@ + t@ + b@ { format!("{a}{t}{b}") }
#[verifier::external_body] // TRUSTED: format! of five strings in a row
pub fn std_wrap2(a: &str, t: &String, b: &str, u: &String, c: &str) -> (r: String) ensures r@ == a@ + t@ + b@ + u@ + c@ { format!("{a}{t}{b}{u}{c}") }
#[verifier::external_body] // TRUSTED: String::new
pub fn std_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] // TRUSTED: String::clone
pub fn std_clone(t: &String) -> (r: String) ensures r@ == t@ { t.clone() }
#[verifier::external_body] // TRUSTED: String::is_empty
pub fn std_is_empty(t: &String) -> (r: bool) ensures r == (t@.len() == 0) { t.is_empty() }
#[verifier::external_body] // TRUSTED: str::starts_with a string
pub fn std_starts_str(t: &String, p: &str) -> (r: bool) ensures r == starts(t@, p@) { t.starts_with(p) }
pub uninterp spec fn img_size(w: i64, h: i64) -> Seq<char>;
#[verifier::external_body] // TRUSTED: format! of the image tag
pub fn std_img(n: &String, w: &i64, h: &i64) -> (r: String) ensures r@ == "<img src=\""@ + n@ + img_size(*w, *h) { unimplemented!() }
pub open spec fn wrap(a: Seq<char>, t: Seq<char>, b: Seq<char>) -> Seq<char> { a + t + b }
/// the segments one after the other, each as f writes it
pub open spec fn rendered(v: Seq<InlineSegment>, f: spec_fn(InlineSegment) -> Seq<char>) -> Seq<char>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { rendered(v.drop_last(), f) + f(v.last()) } }
pub proof fn written_some(s: Seq<char>, w: spec_fn(char) -> Seq<char>)
    requires forall|c: char| #[trigger] w(c).len() > 0,
    ensures written(s, w).len() == 0 <==> s.len() == 0, s.len() > 0 ==> written(s, w)[0] == w(s[0])[0],
{ if s.len() > 0 { assert(w(s[0]).len() > 0); assert((w(s[0]) + written(s.skip(1), w))[0] == w(s[0])[0]); } }
/// Markdown of one segment: escaped text or a code span, inside the marks of its look
pub open spec fn md_of(e: InlineSegment) -> Seq<char> {
    let t0 = match e.content {
        InlineContent::Text(t) => if mono(e.fmt_font_family) { t@ } else { written(t@, |c: char| md_write(c)) },
        InlineContent::Image { name, width, height, quality } => "!["@ + name@ + "]("@ + name@ + ")"@,
        InlineContent::Empty => seq![],
    };
    if t0.len() == 0 { seq![] } else {
        let t1 = if mono(e.fmt_font_family) { md_code(t0) } else { t0 };
        let t2 = if e.fmt_font_strikeout == Some(true) { wrap("~~"@, t1, "~~"@) } else { t1 };
        let t3 = if e.fmt_font_bold == Some(true) && e.fmt_font_italic == Some(true) { wrap("***"@, t2, "***"@) }
            else if e.fmt_font_bold == Some(true) { wrap("**"@, t2, "**"@) } else if e.fmt_font_italic == Some(true) { wrap("*"@, t2, "*"@) } else { t2 };
        match e.fmt_anchor_href { Some(h) => "["@ + t3 + "]("@ + h@ + ")"@, None => t3 }
    }
}
impl ExportMarkdownUseCase {
//@ fn crates/document_io/src/use_cases/export_markdown_uc.rs ExportMarkdownUseCase::render_inline_segments
ensures r is Ok, exists|m: Seq<InlineSegment>| #[trigger] flat(m) == flat(elements@) && apart(m) && r->Ok_0@ == rendered(m, |e: InlineSegment| md_of(e)),
//@ ret r
//@ rw $x.as_deref() == Some("monospace") => std_is_mono(&$x)
//@ rw $x == Some(true) => std_is_true($x)
//@ rw String::new() => std_new()
//@ rw text.is_empty() => std_is_empty(&text)
//@ rw $t.clone() => std_clone(&$t)
//@ rw format!("![{}]({})", $a, $b) => std_wrap2("![", &$a, "](", &$b, ")")
//@ rw format!("~~{}~~", $a) => std_wrap("~~", &$a, "~~")
//@ rw format!("***{}***", $a) => std_wrap("***", &$a, "***")
//@ rw format!("**{}**", $a) => std_wrap("**", &$a, "**")
//@ rw format!("*{}*", $a) => std_wrap("*", &$a, "*")
//@ rw format!("[{}]({})", $a, $b) => std_wrap2("[", &$a, "](", &$b, ")")
//@ rw inline_md.push_str(&$x) => std_push_str(&mut inline_md, &$x)
//@ rwstmt for elem in &merge_alike(elements) { $b } => let alike = merge_alike(elements); for elem in &alike { $b }
//@ loop 0 it
invariant
    it.seq().len() == alike@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == alike@[i],
    inline_md@ == rendered(alike@.take(it.index@ as int), |e: InlineSegment| md_of(e)),
//@ loop 0 top
//raw
let ghost k = it.index@ as int; let ghost was = inline_md@;
proof { assert(alike@.take(k + 1).drop_last() =~= alike@.take(k)); assert(alike@.take(k + 1).last() == *elem); }
//@ loop 0 bottom
assert(inline_md@ =~= was + md_of(*elem));
//@ loop 0 after
assert(alike@.take(alike@.len() as int) =~= alike@);
//@ end
}
/// HTML of one segment: the escaped text inside the marks of its format
pub open spec fn html_of(e: InlineSegment) -> Seq<char> {
    match e.content {
        InlineContent::Text(t) => if t@.len() == 0 { seq![] } else { html_dress(e, written(t@, |c: char| html_write(c))) },
        InlineContent::Image { name, width, height, quality } => "<img src=\""@ + written(name@, |c: char| html_write(c)) + img_size(width, height),
        InlineContent::Empty => seq![],
    }
}
pub open spec fn html_dress(e: InlineSegment, t: Seq<char>) -> Seq<char> {
    let t1 = if mono(e.fmt_font_family) { wrap("<code>"@, t, "</code>"@) } else { t };
    let t2 = if e.fmt_font_bold == Some(true) { wrap("<strong>"@, t1, "</strong>"@) } else { t1 };
    let t3 = if e.fmt_font_italic == Some(true) { wrap("<em>"@, t2, "</em>"@) } else { t2 };
    let t4 = if e.fmt_font_underline == Some(true) { wrap("<u>"@, t3, "</u>"@) } else { t3 };
    let t5 = if e.fmt_font_strikeout == Some(true) { wrap("<s>"@, t4, "</s>"@) } else { t4 };
    match e.fmt_anchor_href { Some(h) => "<a href=\""@ + written(h@, |c: char| html_write(c)) + "\">"@ + t5 + "</a>"@, None => t5 }
}
/// LaTeX of one segment: the escaped text inside the marks of its format
pub open spec fn tex_of(e: InlineSegment) -> Seq<char> {
    match e.content {
        InlineContent::Text(t) => if t@.len() == 0 { seq![] } else { tex_dress(e, written(t@, |c: char| tex_write(c))) },
        InlineContent::Image { name, width, height, quality } => wrap("\\includegraphics{"@, written(name@, |c: char| tex_write(c)), "}"@),
        InlineContent::Empty => seq![],
    }
}
pub open spec fn tex_dress(e: InlineSegment, t: Seq<char>) -> Seq<char> {
    let t1 = if mono(e.fmt_font_family) { wrap("\\texttt{"@, t, "}"@) } else { t };
    let t2 = if e.fmt_font_bold == Some(true) { wrap("\\textbf{"@, t1, "}"@) } else { t1 };
    let t3 = if e.fmt_font_italic == Some(true) { wrap("\\textit{"@, t2, "}"@) } else { t2 };
    let t4 = if e.fmt_font_underline == Some(true) { wrap("\\underline{"@, t3, "}"@) } else { t3 };
    let t5 = if e.fmt_font_strikeout == Some(true) { wrap("\\sout{"@, t4, "}"@) } else { t4 };
    match e.fmt_anchor_href { Some(h) => "\\href{"@ + written(h@, |c: char| tex_write(c)) + "}{"@ + t5 + "}"@, None => t5 }
}
/// the marker the exporter looks for: an image has it, an escaped text does not
pub proof fn html_first(c: InlineContent)
    ensures
        c is Text ==> ((written(c->Text_0@, |c: char| html_write(c)).len() == 0) == (c->Text_0@.len() == 0)) && !starts(written(c->Text_0@, |c: char| html_write(c)), "<img "@),
        c is Image ==> starts("<img src=\""@ + written(c->Image_name@, |c: char| html_write(c)) + img_size(c->Image_width, c->Image_height), "<img "@),
{
    let w = |c: char| html_write(c);
    reveal_strlit("<img "); reveal_strlit("<img src=\""); reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#x27;"); reveal_strlit("&#13;");
    if c is Text {
        let t = c->Text_0@;
        written_some(t, w);
        if starts(written(t, w), "<img "@) { assert(written(t, w)[0] == written(t, w).take(5)[0]); assert(t.len() > 0); }
    }
    if c is Image {
        let full = "<img src=\""@ + written(c->Image_name@, w) + img_size(c->Image_width, c->Image_height);
        assert(full.take(5) =~= "<img "@);
    }
}
pub proof fn tex_first(c: InlineContent)
    ensures
        c is Text ==> ((written(c->Text_0@, |c: char| tex_write(c)).len() == 0) == (c->Text_0@.len() == 0)) && !starts(written(c->Text_0@, |c: char| tex_write(c)), "\\includegraphics"@),
        c is Image ==> starts(wrap("\\includegraphics{"@, written(c->Image_name@, |c: char| tex_write(c)), "}"@), "\\includegraphics"@),
{
    let w = |c: char| tex_write(c);
    reveal_strlit("\\includegraphics"); reveal_strlit("\\includegraphics{");
    reveal_strlit("\\textbackslash{}"); reveal_strlit("\\&"); reveal_strlit("\\%"); reveal_strlit("\\$"); reveal_strlit("\\#"); reveal_strlit("\\_"); reveal_strlit("\\{"); reveal_strlit("\\}"); reveal_strlit("\\textasciitilde{}"); reveal_strlit("\\textasciicircum{}");
    if c is Text {
        let t = c->Text_0@;
        written_some(t, w);
        if starts(written(t, w), "\\includegraphics"@) {
            assert(written(t, w)[0] == written(t, w).take(16)[0]); assert(written(t, w)[1] == written(t, w).take(16)[1]);
            assert(t.len() > 0); assert(w(t[0]).len() >= 2); assert((w(t[0]) + written(t.skip(1), w))[1] == w(t[0])[1]);
        }
    }
    if c is Image {
        let full = wrap("\\includegraphics{"@, written(c->Image_name@, w), "}"@);
        assert(full.take(16) =~= "\\includegraphics"@);
    }
}
//@ fn crates/document_io/src/use_cases/export_html_uc.rs ExportHtmlUseCase::render_inline_html
//@ rename inline_html
//@ from let mut html = String::new();
//@ to for elem in &elements $b
//@ sig (elements: Vec<InlineSegment>) -> String
//@ yields html
ensures r@ == rendered(elements@, |e: InlineSegment| html_of(e)),
//@ ret r
//@ rw $x.as_deref() == Some("monospace") => std_is_mono(&$x)
//@ rw $x == Some(true) => std_is_true($x)
//@ rw String::new() => std_new()
//@ rw text.is_empty() => std_is_empty(&text)
//@ rw text.starts_with($p) => std_starts_str(&text, $p)
//@ rw format!("<img src=\"{}\" width=\"{}\" height=\"{}\" />", $a, $b, $c) => std_img(&$a, $b, $c)
//@ rw format!("<a href=\"{}\">{}</a>", $a, $b) => std_wrap2("<a href=\"", &$a, "\">", &$b, "</a>")
//@ rw format!("<code>{}</code>", $a) => std_wrap("<code>", &$a, "</code>")
//@ rw format!("<strong>{}</strong>", $a) => std_wrap("<strong>", &$a, "</strong>")
//@ rw format!("<em>{}</em>", $a) => std_wrap("<em>", &$a, "</em>")
//@ rw format!("<u>{}</u>", $a) => std_wrap("<u>", &$a, "</u>")
//@ rw format!("<s>{}</s>", $a) => std_wrap("<s>", &$a, "</s>")
//@ rw html.push_str(&$x) => std_push_str(&mut html, &$x)
//@ loop 0 it
invariant
    it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
    html@ == rendered(elements@.take(it.index@ as int), |e: InlineSegment| html_of(e)),
//@ loop 0 top
//raw
let ghost k = it.index@ as int; let ghost was = html@;
proof {
    assert(elements@.take(k + 1).drop_last() =~= elements@.take(k)); assert(elements@.take(k + 1).last() == *elem);
    html_first(elem.content);
}
//@ loop 0 bottom
assert(html@ =~= was + html_of(*elem));
//@ loop 0 after
assert(elements@.take(elements@.len() as int) =~= elements@);
//@ end
//@ fn crates/document_io/src/use_cases/export_latex_uc.rs ExportLatexUseCase::render_inline_latex
//@ rename inline_latex
//@ from let mut latex = String::new();
//@ to for elem in &elements $b
//@ sig (elements: Vec<InlineSegment>) -> String
//@ yields latex
ensures r@ == rendered(elements@, |e: InlineSegment| tex_of(e)),
//@ ret r
//@ rw $x.as_deref() == Some("monospace") => std_is_mono(&$x)
//@ rw $x == Some(true) => std_is_true($x)
//@ rw String::new() => std_new()
//@ rw text.is_empty() => std_is_empty(&text)
//@ rw text.starts_with($p) => std_starts_str(&text, $p)
//@ rw format!("\\href{{{}}}{{{}}}", $a, $b) => std_wrap2("\\href{", &$a, "}{", &$b, "}")
//@ rw format!("\\includegraphics{{{}}}", $a) => std_wrap("\\includegraphics{", &$a, "}")
//@ rw format!("\\texttt{{{}}}", $a) => std_wrap("\\texttt{", &$a, "}")
//@ rw format!("\\textbf{{{}}}", $a) => std_wrap("\\textbf{", &$a, "}")
//@ rw format!("\\textit{{{}}}", $a) => std_wrap("\\textit{", &$a, "}")
//@ rw format!("\\underline{{{}}}", $a) => std_wrap("\\underline{", &$a, "}")
//@ rw format!("\\sout{{{}}}", $a) => std_wrap("\\sout{", &$a, "}")
//@ rw latex.push_str(&$x) => std_push_str(&mut latex, &$x)
//@ loop 0 it
invariant
    it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
    latex@ == rendered(elements@.take(it.index@ as int), |e: InlineSegment| tex_of(e)),
//@ loop 0 top
//raw
let ghost k = it.index@ as int; let ghost was = latex@;
proof {
    assert(elements@.take(k + 1).drop_last() =~= elements@.take(k)); assert(elements@.take(k + 1).last() == *elem);
    tex_first(elem.content);
}
//@ loop 0 bottom
assert(latex@ =~= was + tex_of(*elem));
//@ loop 0 after
assert(elements@.take(elements@.len() as int) =~= elements@);
//@ end
}
fn main() {}
