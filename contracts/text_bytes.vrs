// ---- text as characters and as UTF-8 bytes
pub open spec fn width(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
/// bytes of a text
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) } }
pub proof fn blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); blen_add(a, b.drop_last()); } }
pub proof fn blen_push(a: Seq<char>, c: char)
    ensures blen(a.push(c)) == blen(a) + width(c),
{ assert(a.push(c).drop_last() =~= a); }
pub proof fn blen_one(c: char)
    ensures blen(seq![c]) == width(c),
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(blen(seq![c].drop_last()) == 0); }
pub proof fn blen_ge(s: Seq<char>)
    ensures s.len() <= blen(s) <= 4 * s.len(),
    decreases s.len(),
{ if s.len() > 0 { blen_ge(s.drop_last()); } }
/// a byte offset names one character offset
pub proof fn blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) <= blen(s.take(j)), i < j ==> blen(s.take(i)) < blen(s.take(j)), blen(s.take(j)) <= blen(s), blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); blen_add(s.take(i), s.subrange(i, j)); blen_ge(s.subrange(i, j));
    assert(s =~= s.take(j) + s.skip(j)); blen_add(s.take(j), s.skip(j));
}
pub open spec fn on_char(s: Seq<char>, b: int) -> bool { exists|k: int| at(s, b, k) }
pub open spec fn at(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == b }
pub open spec fn char_of(s: Seq<char>, b: int) -> int { choose|k: int| at(s, b, k) }
pub proof fn at_one(s: Seq<char>, b: int, k: int)
    requires at(s, b, k),
    ensures char_of(s, b) == k, on_char(s, b),
{ let c = char_of(s, b); assert(at(s, b, c)); if c < k { blen_mono(s, c, k); } else if k < c { blen_mono(s, k, c); } }
pub open spec fn splice(s: Seq<char>, i: int, j: int, t: Seq<char>) -> Seq<char> { s.take(i) + t + s.skip(j) }

#[verifier::external_body] // TRUSTED: str::len counts UTF-8 bytes
pub fn std_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
