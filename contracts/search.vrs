use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub struct Error {}
//@ rwtype Result<Vec<(usize, usize)>> => Result<Vec<(usize, usize)>, Error>
//@ rwtype HashSet<usize> => WordSet

// ---- strings: characters and the byte offsets they start at
pub uninterp spec fn width(c: char) -> nat;
/// byte offset of the i-th character
pub open spec fn off(s: Seq<char>, i: int) -> nat
    decreases i
{ if i <= 0 || i > s.len() { 0 } else { off(s, i - 1) + width(s[i - 1]) } }
#[verifier::external_body]
pub proof fn width_pos(c: char) ensures 1 <= width(c) <= 4 { } // TRUSTED: a character takes one to four bytes in UTF-8
pub proof fn off_lt(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures i < j ==> off(s, i) < off(s, j), off(s, i) <= off(s, j),
    decreases j - i,
{ if i < j { off_lt(s, i, j - 1); width_pos(s[j - 1]); } }
pub proof fn off_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), off(s, i) == off(s, j),
    ensures i == j,
{ if i < j { off_lt(s, i, j); } else if j < i { off_lt(s, j, i); } }

#[verifier::external_body] // TRUSTED: str::is_empty
pub fn std_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] // TRUSTED: str::to_string
pub fn std_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] // TRUSTED: str::len is the byte length
pub fn std_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len() as int), r < usize::MAX { s.len() }
#[verifier::external_body] // TRUSTED: the offsets of char_indices, in order
pub fn std_char_starts(s: &str) -> (r: Vec<usize>)
    ensures r@.len() == s@.len(), r@.len() < usize::MAX / 8, forall|i: int| 0 <= i < s@.len() ==> #[trigger] r@[i] == off(s@, i),
{ s.char_indices().map(|(i, _)| i).collect() }
#[verifier::external_body] // TRUSTED: str::char_indices
pub fn std_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), r@.len() < usize::MAX, forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).0 == off(s@, i) && r@[i].1 == s@[i],
{ s.char_indices().collect() }
#[verifier::external_body] // TRUSTED: str::chars
pub fn std_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@, r@.len() < usize::MAX { s.chars().collect() }
#[verifier::external_body] // TRUSTED: str::chars().count()
pub fn std_char_count(s: &str) -> (r: usize) ensures r == s@.len(), r < usize::MAX { s.chars().count() }
#[verifier::external_body] // TRUSTED: comparing a byte slice at character offsets compares the characters
pub fn std_slice_eq(s: &str, a: usize, b: usize, t: &str) -> (r: bool)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == a && #[trigger] off(s@, j) == b,
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == a && #[trigger] off(s@, j) == b ==> r == (s@.subrange(i, j) == t@),
{ s[a..b] == t[..] }
#[verifier::external_body] // TRUSTED: the characters in front of a byte offset
pub fn std_prefix_count(s: &str, a: usize) -> (r: usize)
    requires exists|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == a,
    ensures 0 <= r <= s@.len(), off(s@, r as int) == a,
{ s[..a].chars().count() }
#[verifier::external_body] // TRUSTED: Vec::resize to a larger length
pub fn std_resize(v: &mut Vec<usize>, n: usize, x: usize)
    requires n >= old(v)@.len(),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i], forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i] == x,
{ v.resize(n, x) }

// ---- case folding, character by character
pub uninterp spec fn lower_seq(c: char) -> Seq<char>;
#[verifier::external_body]
pub proof fn lower_some(c: char) ensures lower_seq(c).len() >= 1 { } // TRUSTED: char::to_lowercase yields at least one character
#[verifier::external_body] // TRUSTED: char::to_lowercase().count()
pub fn std_lower_count(c: char) -> (r: usize) ensures r == lower_seq(c).len() { c.to_lowercase().count() }
pub open spec fn lowered(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { lowered(s.drop_last()) + lower_seq(s.last()) } }
#[verifier::external_body] // TRUSTED: chars().flat_map(char::to_lowercase).map(f).collect()
pub fn std_fold<F: Fn(char) -> char>(s: &str, f: F) -> (r: String)
    requires forall|c: char| f.requires((c,)),
    ensures r@.len() == lowered(s@).len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((lowered(s@)[i],), #[trigger] r@[i]),
{ s.chars().flat_map(char::to_lowercase).map(f).collect() }
pub open spec fn fold1(c: char) -> char { if c == '\u{3c2}' { '\u{3c3}' } else { c } }
pub open spec fn foldc(c: char, cs: bool) -> Seq<char> { if cs { seq![c] } else { lower_seq(c).map_values(|d: char| fold1(d)) } }
/// the text as it is compared: as it stands, or each character folded on its own
pub open spec fn folded(s: Seq<char>, cs: bool) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { folded(s.drop_last(), cs) + foldc(s.last(), cs) } }
pub proof fn folded_lowered(s: Seq<char>)
    ensures folded(s, false) =~= lowered(s).map_values(|d: char| fold1(d)),
    decreases s.len(),
{ if s.len() > 0 { folded_lowered(s.drop_last()); } }
pub proof fn folded_same(s: Seq<char>)
    ensures folded(s, true) =~= s,
    decreases s.len(),
{ if s.len() > 0 { folded_same(s.drop_last()); } }
pub proof fn folded_add(s: Seq<char>, t: Seq<char>, cs: bool)
    ensures folded(s + t, cs) =~= folded(s, cs) + folded(t, cs),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); }
    else { assert((s + t).drop_last() =~= s + t.drop_last()); folded_add(s, t.drop_last(), cs); }
}
/// where the folded k-th character starts in the folded text
pub open spec fn pre(s: Seq<char>, cs: bool, k: int) -> int { folded(s.take(k), cs).len() as int }
pub proof fn pre_step(s: Seq<char>, cs: bool, k: int)
    requires 0 <= k < s.len(),
    ensures pre(s, cs, k + 1) == pre(s, cs, k) + foldc(s[k], cs).len(), foldc(s[k], cs).len() >= 1,
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); lower_some(s[k]); }
pub proof fn pre_lt(s: Seq<char>, cs: bool, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures i < j ==> pre(s, cs, i) < pre(s, cs, j), pre(s, cs, i) <= pre(s, cs, j),
    decreases j - i,
{ if i < j { pre_lt(s, cs, i, j - 1); pre_step(s, cs, j - 1); } }
pub proof fn folded_range(s: Seq<char>, cs: bool, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures folded(s.subrange(i, j), cs) =~= folded(s, cs).subrange(pre(s, cs, i), pre(s, cs, j)), 0 <= pre(s, cs, i) <= pre(s, cs, j) <= folded(s, cs).len(),
{
    pre_lt(s, cs, i, j);
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    folded_add(s.take(i), s.subrange(i, j), cs);
    assert(s =~= s.take(j) + s.subrange(j, s.len() as int));
    folded_add(s.take(j), s.subrange(j, s.len() as int), cs);
}

// ---- words
#[verifier::external_body]
pub struct WordSet { x: u8 }
impl WordSet {
    pub uninterp spec fn view(&self) -> Set<int>;
    #[verifier::external_body] // TRUSTED: HashSet::new
    pub fn new() -> (r: Self) ensures r@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashSet::insert
    pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(x as int) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashSet::contains
    pub fn contains(&self, x: &usize) -> (r: bool) ensures r == self@.contains(*x as int) { unimplemented!() }
}
/// the words of the text (Unicode segmentation), as character ranges in order
pub uninterp spec fn words(s: Seq<char>) -> Seq<(int, int)>;
#[verifier::external_body] // TRUSTED: unicode_word_indices gives each word's byte offset and text
pub fn std_words(s: &str) -> (r: Vec<(usize, &str)>)
    ensures
        r@.len() == words(s@).len(),
        forall|i: int| 0 <= i < r@.len() ==> 0 <= (#[trigger] words(s@)[i]).0 <= words(s@)[i].1 <= s@.len() && r@[i].0 == off(s@, words(s@)[i].0) && r@[i].1@ == s@.subrange(words(s@)[i].0, words(s@)[i].1),
{ unimplemented!() }
/// an end of the text or of a word
pub open spec fn edge(s: Seq<char>, k: int) -> bool {
    k == 0 || k == s.len() || exists|i: int| 0 <= i < words(s).len() && ((#[trigger] words(s)[i]).0 == k || words(s)[i].1 == k)
}
//@ fn crates/document_search/src/use_cases/search_helpers.rs build_word_boundary_set
ensures
    forall|k: int| r@.contains(k) <==> edge(text@, k),
//@ ret r
//@ rw text.chars().count() => std_char_count(text)
//@ rw word.chars().count() => std_char_count(word)
//@ rw text.unicode_word_indices() => std_words(text)
//@ rw HashSet::new() => WordSet::new()
//@ rw text[..byte_start].chars().count() => std_prefix_count(text, byte_start)
//@ loop 0 it
invariant
    it.seq().len() == words(text@).len(), forall|i: int| 0 <= i < it.seq().len() ==> 0 <= (#[trigger] words(text@)[i]).0 <= words(text@)[i].1 <= text@.len() && it.seq()[i].0 == off(text@, words(text@)[i].0) && it.seq()[i].1@ == text@.subrange(words(text@)[i].0, words(text@)[i].1),
    forall|k: int| #![trigger set@.contains(k)] set@.contains(k) <==> (k == 0 || k == text@.len() || exists|i: int| 0 <= i < it.index@ && ((#[trigger] words(text@)[i]).0 == k || words(text@)[i].1 == k)),
    text@.len() < usize::MAX,
//@ loop 0 top
let i = it.index@ as int;
let w = words(text@)[i];
assert(off(text@, w.0) == byte_start);
//@ behind let word_char_start = $x;
off_inj(text@, word_char_start as int, words(text@)[it.index@ as int].0);
//@ end

// ---- regular expressions
#[verifier::external_body]
pub struct Regex { x: u8 }
#[verifier::external_body]
pub struct Mat { x: u8 }
impl Mat {
    pub uninterp spec fn first(&self) -> int;
    pub uninterp spec fn end_(&self) -> int;
    #[verifier::external_body] // TRUSTED: Match::start
    pub fn start(&self) -> (r: usize) ensures r == self.first() { unimplemented!() }
    #[verifier::external_body] // TRUSTED: Match::end
    pub fn end(&self) -> (r: usize) ensures r == self.end_() { unimplemented!() }
}
/// does the crate accept the expression
pub uninterp spec fn re_ok(q: Seq<char>, icase: bool) -> bool;
/// the matches the regex crate finds, as character ranges in order
pub uninterp spec fn re_matches(q: Seq<char>, icase: bool, t: Seq<char>) -> Seq<(int, int)>;
impl Regex {
    pub uninterp spec fn of(&self) -> (Seq<char>, bool);
}
#[verifier::external_body] // TRUSTED: RegexBuilder with the size limits of the code
pub fn std_regex(q: &str, icase: bool) -> (r: Result<Regex, Error>)
    ensures r is Ok <==> re_ok(q@, icase), r is Ok ==> r->Ok_0.of() == (q@, icase),
{ unimplemented!() }
#[verifier::external_body] // TRUSTED: Regex::find_iter reports the byte offsets of its matches, at character boundaries
pub fn std_find_iter(re: &Regex, t: &str) -> (r: Vec<Mat>)
    ensures
        r@.len() == re_matches(re.of().0, re.of().1, t@).len(),
        forall|i: int| 0 <= i < r@.len() ==> {
            let m = #[trigger] re_matches(re.of().0, re.of().1, t@)[i];
            0 <= m.0 <= m.1 <= t@.len() && r@[i].first() == off(t@, m.0) && r@[i].end_() == off(t@, m.1)
        },
{ unimplemented!() }
//@ fn crates/document_search/src/use_cases/search_helpers.rs build_byte_to_char_map
ensures
    r@.len() == off(text@, text@.len() as int) + 1,
    forall|k: int| 0 <= k <= text@.len() ==> #[trigger] off(text@, k) < r@.len() && r@[off(text@, k) as int] == k,
//@ ret r
//@ rw text.len() => std_len(text)
//@ rw vec![0usize; $n] => std_zeros($n)
//@ rw text.char_indices() => std_char_indices(text)
//@ loop 0 it
invariant
    text@.len() < usize::MAX,
    it.seq().len() == text@.len(), forall|i: int| 0 <= i < text@.len() ==> (#[trigger] it.seq()[i]).0 == off(text@, i) && it.seq()[i].1 == text@[i],
    map@.len() == off(text@, text@.len() as int) + 1, char_idx == it.index@,
    forall|k: int| 0 <= k < it.index@ ==> #[trigger] off(text@, k) < map@.len() && map@[off(text@, k) as int] == k,
//@ loop 0 top
let n = it.index@ as int;
off_lt(text@, n, text@.len() as int);
assert forall|k: int| 0 <= k < n implies #[trigger] off(text@, k) != byte_idx by { off_lt(text@, k, n); }
//@ loop 0 after
assert forall|k: int| 0 <= k < text@.len() implies #[trigger] off(text@, k) < off(text@, text@.len() as int) by { off_lt(text@, k, text@.len() as int); }
//@ end
#[verifier::external_body] // TRUSTED: vec![0; n]
pub fn std_zeros(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { vec![0usize; n] }

//@ fn crates/document_search/src/use_cases/search_helpers.rs fold_case
ensures r@ == folded(text@, false),
//@ ret r
//@ rw text.chars().flat_map(char::to_lowercase).map(|c| $b).collect() => { let folded_text = std_fold(text, closure« -> (d: char) ensures d == fold1(c)»(|c: char| $b)); proof«folded_lowered(text@); assert(folded_text@ =~= folded(text@, false));» folded_text }
//@ end

// ---- specification of a search
/// the query occurs in the text from character s to character e
pub open spec fn occurs(t: Seq<char>, q: Seq<char>, cs: bool, s: int, e: int) -> bool {
    0 <= s <= e <= t.len() && folded(t.subrange(s, e), cs) == folded(q, cs)
}
pub open spec fn good(t: Seq<char>, q: Seq<char>, cs: bool, whole: bool, s: int, e: int) -> bool {
    occurs(t, q, cs, s, e) && (whole ==> edge(t, s) && edge(t, e))
}
pub open spec fn begins_in(v: Seq<(usize, usize)>, p: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 <= p < v[i].0 + v[i].1 }
/// every reported match is an occurrence, they come in order without overlap, and an occurrence
/// that is not reported begins inside one that is: the leftmost non-overlapping occurrences
pub open spec fn leftmost(v: Seq<(usize, usize)>, t: Seq<char>, q: Seq<char>, cs: bool, whole: bool) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> good(t, q, cs, whole, (#[trigger] v[i]).0 as int, v[i].0 + v[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 + v[i].1 <= (#[trigger] v[j]).0
    &&& forall|s: int, e: int| #[trigger] good(t, q, cs, whole, s, e) ==> begins_in(v, s)
}
/// the matches of the regex crate that pass the whole-word filter, in order
pub open spec fn re_result(m: Seq<(int, int)>, t: Seq<char>, whole: bool) -> Seq<(int, int)>
    decreases m.len()
{
    if m.len() == 0 { seq![] }
    else {
        let x = m.last();
        if !whole || (edge(t, x.0) && edge(t, x.1)) { re_result(m.drop_last(), t, whole).push((x.0, x.1 - x.0)) } else { re_result(m.drop_last(), t, whole) }
    }
}
pub open spec fn ints(v: Seq<(usize, usize)>) -> Seq<(int, int)> { v.map_values(|x: (usize, usize)| (x.0 as int, x.1 as int)) }
/// origin[i] is the character of the text that the i-th folded character comes from
pub open spec fn origin_ok(o: Seq<usize>, t: Seq<char>, cs: bool, k: int) -> bool {
    o.len() == pre(t, cs, k) && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) < k && pre(t, cs, o[i] as int) <= i < pre(t, cs, o[i] + 1)
}
/// ... with the end of the text as a last entry
pub open spec fn origin_full(o: Seq<usize>, t: Seq<char>, cs: bool) -> bool {
    o.len() > 0 && origin_ok(o.drop_last(), t, cs, t.len() as int) && o.last() == t.len()
}
pub open spec fn starts(o: Seq<usize>, i: int) -> bool { i == 0 || o[i] != o[i - 1] }
pub proof fn starts_pre(o: Seq<usize>, t: Seq<char>, cs: bool, i: int)
    requires origin_full(o, t, cs), 0 <= i < o.len(),
    ensures starts(o, i) <==> pre(t, cs, o[i] as int) == i, o[i] <= t.len(),
{
    let d = o.drop_last();
    let n = t.len() as int;
    assert(o[o.len() - 1] == n);
    if i == o.len() - 1 {
        if i > 0 { assert(d[i - 1] < n); }
    } else {
        assert(d[i] < n);
        if i > 0 {
            assert(d[i - 1] < n);
            let a = d[i - 1] as int; let b = d[i] as int;
            if a == b { } else if a < b { pre_lt(t, cs, a + 1, b); } else { pre_lt(t, cs, b + 1, a); }
        } else { pre_lt(t, cs, 0, b_of(d, i)); }
    }
}
pub open spec fn b_of(d: Seq<usize>, i: int) -> int { d[i] as int }
/// position s in the text, seen from the folded text
pub proof fn origin_at(o: Seq<usize>, t: Seq<char>, cs: bool, s: int)
    requires origin_full(o, t, cs), 0 <= s <= t.len(),
    ensures 0 <= pre(t, cs, s) < o.len(), o[pre(t, cs, s)] == s, starts(o, pre(t, cs, s)),
{
    let n = t.len() as int;
    let i = pre(t, cs, s);
    pre_lt(t, cs, s, n);
    assert(o[o.len() - 1] == n);
    if s < n {
        pre_lt(t, cs, s, n);
        let d = o.drop_last();
        assert(d[i] < n);
        let a = d[i] as int;
        if a < s { pre_lt(t, cs, a + 1, s); } else if a > s { pre_step(t, cs, s); pre_lt(t, cs, s + 1, a); }
    }
    starts_pre(o, t, cs, i);
}
//@ fn crates/document_search/src/use_cases/search_helpers.rs find_all_matches
ensures
    query@.len() == 0 ==> r is Ok && r->Ok_0@.len() == 0,
    query@.len() > 0 && !use_regex ==> r is Ok && leftmost(r->Ok_0@, full_text@, query@, case_sensitive, whole_word),
    query@.len() > 0 && use_regex ==> (r is Ok <==> re_ok(query@, !case_sensitive)) && (r is Ok ==> ints(r->Ok_0@) == re_result(re_matches(query@, !case_sensitive, full_text@), full_text@, whole_word)),
//@ ret r
//@ rw query.is_empty() => std_is_empty(query)
//@ rw RegexBuilder::new(query).case_insensitive($x).size_limit($a).dfa_size_limit($b).build().map_err($f) => std_regex(query, $x)
//@ rw re.find_iter(full_text) => std_find_iter(&re, full_text)
//@ rw full_text.to_string() => std_owned(full_text)
//@ rw query.to_string() => std_owned(query)
//@ rw search_text.char_indices().map(|(i, _)| i).collect() => std_char_starts(&search_text)
//@ rw search_query.chars().count() => std_char_count(&search_query)
//@ rw full_text.chars() => std_chars(full_text)
//@ rw c.to_lowercase().count() => std_lower_count(c)
//@ rwstmt origin.resize($n, $x); => let new_len = $n; std_resize(&mut origin, new_len, $x);
//@ rw search_text.len() => std_len(&search_text)
//@ rw search_text[byte_start..byte_end] == search_query[..] => std_slice_eq(&search_text, byte_start, byte_end, &search_query)
//@ rwstmt let starts_char = |i: usize| $b; => let starts_char = closure« -> (r: bool) requires i < origin@.len() ensures r == starts(origin@, i as int)»(|i: usize| $b);
//@ behind let word_boundaries = $x;
//raw
let ghost t = full_text@; let ghost q = query@; let ghost cs = case_sensitive; let ghost m = re_matches(q, !cs, t);
//@ loop 0 it
invariant
    t == full_text@, m == re_matches(query@, !case_sensitive, t), it.seq().len() == m.len(),
    forall|i: int| 0 <= i < m.len() ==> 0 <= (#[trigger] m[i]).0 <= m[i].1 <= t.len() && it.seq()[i].first() == off(t, m[i].0) && it.seq()[i].end_() == off(t, m[i].1),
    forall|k: int| 0 <= k <= t.len() ==> #[trigger] off(t, k) < char_offsets@.len() && char_offsets@[off(t, k) as int] == k,
    word_boundaries is Some <==> whole_word, word_boundaries is Some ==> forall|k: int| word_boundaries->Some_0@.contains(k) <==> edge(t, k),
    ints(results@) =~= re_result(m.take(it.index@ as int), t, whole_word),
//@ loop 0 top
let i = it.index@ as int;
assert(m[i].0 <= m[i].1);
assert(m.take(i + 1).drop_last() =~= m.take(i));
assert(m.take(i + 1).last() == m[i]);
//@ loop 0 after
assert(m.take(m.len() as int) =~= m);
//@ behind let (search_text, search_query) = $x;
folded_same(t); folded_same(q);
assert(search_text@ == folded(t, cs) && search_query@ == folded(q, cs));
//@ behind let query_char_len = $x;
assert forall|s: int, e: int| occurs(t, q, cs, s, e) implies query_char_len <= search_text@.len() && query_char_len > 0 by {
    folded_range(t, cs, s, e);
    assert(q.len() > 0);
    lower_some(q.last());
}
//@ loop 1 it
invariant
    t == full_text@, it.seq() == t, cs == case_sensitive, search_text@ == folded(t, cs), search_text@.len() < usize::MAX / 8, char_indices@.len() == search_text@.len(),
    full_char_len == it.index@, origin_ok(origin@, t, cs, it.index@ as int),
//@ loop 1 top
let k = it.index@ as int;
pre_step(t, cs, k); pre_lt(t, cs, k + 1, t.len() as int);
assert(t.take(t.len() as int) =~= t);
assert(c == t[k]);
//@ loop 1 bottom
//raw proof {
let k = it.index@ as int;
pre_step(t, cs, k);
assert forall|i: int| 0 <= i < origin@.len() implies (#[trigger] origin@[i]) < k + 1 && pre(t, cs, origin@[i] as int) <= i < pre(t, cs, origin@[i] + 1) by { }
}
//@ loop 1 after
assert(t.take(t.len() as int) =~= t);
//@ behind origin.push(full_char_len);
assert(origin_full(origin@, t, cs)) by {
    assert(origin@.drop_last().len() == pre(t, cs, t.len() as int));
}
assert(origin@.len() == search_text@.len() + 1);
//@ loop 2
invariant
    t == full_text@, q == query@, cs == case_sensitive, search_text@ == folded(t, cs), search_query@ == folded(q, cs), query_char_len == search_query@.len(), query_char_len > 0,
    char_indices@.len() == search_text@.len(), char_indices@.len() < usize::MAX / 8, query_char_len <= char_indices@.len(),
    forall|i: int| 0 <= i < search_text@.len() ==> #[trigger] char_indices@[i] == off(search_text@, i),
    origin_full(origin@, t, cs), origin@.len() == search_text@.len() + 1,
    forall|i: usize| i < origin@.len() ==> starts_char.requires((i,)), forall|i: usize, b: bool| starts_char.ensures((i,), b) ==> b == starts(origin@, i as int),
    word_boundaries is Some <==> whole_word, word_boundaries is Some ==> forall|k: int| word_boundaries->Some_0@.contains(k) <==> edge(t, k),
    char_pos <= search_text@.len(),
    forall|i: int| 0 <= i < results@.len() ==> good(t, q, cs, whole_word, (#[trigger] results@[i]).0 as int, results@[i].0 + results@[i].1) && pre(t, cs, results@[i].0 + results@[i].1) <= char_pos,
    forall|i: int, j: int| 0 <= i < j < results@.len() ==> (#[trigger] results@[i]).0 + results@[i].1 <= (#[trigger] results@[j]).0,
    forall|s: int, e: int| #[trigger] good(t, q, cs, whole_word, s, e) && pre(t, cs, s) < char_pos ==> begins_in(results@, s),
decreases search_text@.len() - char_pos,
//@ loop 2 top
//raw
let ghost pos0 = char_pos; let ghost results0 = results@;
proof {
    let p = char_pos as int; let e = p + query_char_len;
    assert(off(search_text@, p) == char_indices@[p]);
    starts_pre(origin@, t, cs, p); starts_pre(origin@, t, cs, e);
}
//@ behind let end_pos = $x;
//raw
let ghost s = origin@[char_pos as int] as int; let ghost e = origin@[end_pos as int] as int;
proof {
    assert(off(search_text@, end_pos as int) == byte_end);
    // an occurrence that starts here ends here
    assert forall|s2: int, e2: int| #[trigger] good(t, q, cs, whole_word, s2, e2) && pre(t, cs, s2) == pos0 implies
        s2 == s && e2 == e && search_text@.subrange(pos0 as int, end_pos as int) == search_query@ && starts(origin@, pos0 as int) && starts(origin@, end_pos as int) by {
        folded_range(t, cs, s2, e2);
        origin_at(origin@, t, cs, s2); origin_at(origin@, t, cs, e2);
    }
    if search_text@.subrange(pos0 as int, end_pos as int) == search_query@ && starts(origin@, pos0 as int) && starts(origin@, end_pos as int) {
        if s > e { pre_lt(t, cs, e, s); }
        folded_range(t, cs, s, e);
        assert(occurs(t, q, cs, s, e));
        if s == e { }
    }
}
//@ loop 2 bottom
//raw proof {
    if results@.len() > results0.len() {
        assert(results@ == results0.push((s as usize, (e - s) as usize)));
        assert forall|i: int| 0 <= i < results0.len() implies (#[trigger] results0[i]).0 + results0[i].1 <= s by {
            let x = results0[i].0 + results0[i].1;
            if x > s { pre_lt(t, cs, s, x); }
        }
        assert forall|s2: int, e2: int| #[trigger] good(t, q, cs, whole_word, s2, e2) && pre(t, cs, s2) < char_pos implies begins_in(results@, s2) by {
            if pre(t, cs, s2) < pos0 {
                assert(begins_in(results0, s2));
                let i = choose|i: int| 0 <= i < results0.len() && (#[trigger] results0[i]).0 <= s2 < results0[i].0 + results0[i].1;
                assert(results@[i] == results0[i]);
            } else {
                if s2 < s { pre_lt(t, cs, s2, s); }
                if s2 >= e { pre_lt(t, cs, e, s2); }
                assert(results@[results0.len() as int].0 <= s2 < results@[results0.len() as int].0 + results@[results0.len() as int].1);
            }
        }
    } else {
        assert(results@ == results0);
        assert forall|s2: int, e2: int| #[trigger] good(t, q, cs, whole_word, s2, e2) && pre(t, cs, s2) < char_pos implies begins_in(results@, s2) by {
            if pre(t, cs, s2) == pos0 { }
        }
    }
}
//@ loop 2 after
assert forall|s2: int, e2: int| #[trigger] good(t, q, cs, whole_word, s2, e2) implies begins_in(results@, s2) by {
    folded_range(t, cs, s2, e2);
}
//@ end

// ---- which match a step of the search takes
//@ item crates/document_search/src/dtos.rs FindTextDto
#[verifier::external_body] // TRUSTED: iter().find(f).copied()
pub fn std_find<F: Fn(&(usize, usize)) -> bool>(v: &Vec<(usize, usize)>, f: F) -> (r: Option<(usize, usize)>)
    requires forall|x: (usize, usize)| f.requires((&x,)),
    ensures
        r is Some ==> exists|i: int| 0 <= i < v@.len() && r == Some(#[trigger] v@[i]) && f.ensures((&v@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
{ v.iter().find(|x| f(x)).copied() }
#[verifier::external_body] // TRUSTED: iter().rev().find(f).copied()
pub fn std_rfind<F: Fn(&(usize, usize)) -> bool>(v: &Vec<(usize, usize)>, f: F) -> (r: Option<(usize, usize)>)
    requires forall|x: (usize, usize)| f.requires((&x,)),
    ensures
        r is Some ==> exists|i: int| 0 <= i < v@.len() && r == Some(#[trigger] v@[i]) && f.ensures((&v@[i],), true) && forall|j: int| i < j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
{ v.iter().rev().find(|x| f(x)).copied() }
/// forward: the first match that starts at or after p; backward: the last that starts before p
pub open spec fn picked(v: Seq<(usize, usize)>, p: int, back: bool, r: Option<(usize, usize)>) -> bool {
    let ok = |x: (usize, usize)| if back { x.0 < p } else { x.0 >= p };
    &&& r is Some ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && r == Some(v[i]) && ok(v[i]) && forall|j: int| 0 <= j < v.len() && (if back { j > i } else { j < i }) ==> !ok(#[trigger] v[j])
    &&& r is None ==> forall|j: int| 0 <= j < v.len() ==> !ok(#[trigger] v[j])
}
//@ fn crates/document_search/src/use_cases/find_text_uc.rs FindTextUseCase::execute
ensures
    picked(all_matches@, if dto.start_position > 0 { dto.start_position as int } else { 0 }, dto.search_backward, r),
//@ rename find_text_pick
//@ from let start_pos = $x;
//@ to let result = $x;
//@ sig (dto: &FindTextDto, all_matches: Vec<(usize, usize)>) -> Option<(usize, usize)>
//@ yields result
//@ ret r
//@ rw dto.start_position.max(0) => std_max0(dto.start_position)
//@ rw all_matches.iter().rev().find(|$p| $b).copied() => std_rfind(&all_matches, closure« -> (r: bool) ensures r == (x.0 < start_pos)»(|x: &(usize, usize)| { let $p = x; $b }))
//@ rw all_matches.iter().find(|$p| $b).copied() => std_find(&all_matches, closure« -> (r: bool) ensures r == (x.0 >= start_pos)»(|x: &(usize, usize)| { let $p = x; $b }))
//@ end
#[verifier::external_body] // TRUSTED: Ord::max
pub fn std_max0(x: i64) -> (r: i64) ensures r == if x > 0 { x } else { 0 } { x.max(0) }

}
fn main() {}
