use vstd::prelude::*;
use vstd::string::*;
verus! {
//@ rwtype frontend::list::dtos::ListDto => ListDto
//@ item crates/common/src/entities.rs ListStyle
//@ item crates/direct_access/src/list/dtos.rs ListDto only style, prefix, suffix

//@ use std_text.vrs
pub uninterp spec fn decimal(n: nat) -> Seq<char>;
#[verifier::external_body] // TRUSTED: format!("{n}") writes n in decimal
pub fn std_decimal(n: usize) -> (r: String) ensures r@ == decimal(n as nat) { format!("{n}") }
#[verifier::external_body] // TRUSTED: format!("{a}{b}{c}") concatenates
pub fn std_concat3(a: &String, b: &String, c: &String) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{a}{b}{c}") }
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
#[verifier::external_body] // TRUSTED: to_lowercase maps A-Z to a-z on ASCII text
pub fn std_lower(s: String) -> (r: String)
    requires forall|i: int| 0 <= i < s@.len() ==> 'A' <= #[trigger] s@[i] <= 'Z',
    ensures r@ == s@.map_values(|c: char| lower(c)),
{ s.to_lowercase() }

// ---- specification
/// the Roman digit for d units of a power of ten with the signs for one, five and ten
pub open spec fn digit(d: nat, one: char, five: char, ten: char) -> Seq<char> {
    if d == 0 { seq![] } else if d == 1 { seq![one] } else if d == 2 { seq![one, one] } else if d == 3 { seq![one, one, one] }
    else if d == 4 { seq![one, five] } else if d == 5 { seq![five] } else if d == 6 { seq![five, one] }
    else if d == 7 { seq![five, one, one] } else if d == 8 { seq![five, one, one, one] } else { seq![one, ten] }
}
pub open spec fn thousands(k: nat) -> Seq<char> decreases k { if k == 0 { seq![] } else { seq!['M'] + thousands((k - 1) as nat) } }
pub open spec fn roman(n: nat) -> Seq<char> {
    thousands(n / 1000) + digit(n / 100 % 10, 'C', 'D', 'M') + digit(n / 10 % 10, 'X', 'L', 'C') + digit(n % 10, 'I', 'V', 'X')
}
pub open spec fn marker_body(style: ListStyle, number: nat) -> Seq<char> {
    match style {
        ListStyle::Disc => seq!['\u{2022}'],
        ListStyle::Circle => seq!['\u{25E6}'],
        ListStyle::Square => seq!['\u{25AA}'],
        ListStyle::Decimal => decimal(number),
        ListStyle::LowerAlpha => if number <= 26 { seq![letter('a', number)] } else { decimal(number) },
        ListStyle::UpperAlpha => if number <= 26 { seq![letter('A', number)] } else { decimal(number) },
        ListStyle::LowerRoman => roman(number).map_values(|c: char| lower(c)),
        ListStyle::UpperRoman => roman(number),
    }
}
pub open spec fn letter(base: char, n: nat) -> char { ((base as u32 + n - 1) as u8) as char }

// ---- the greedy table the code walks through
pub open spec fn gval(k: int) -> nat {
    if k == 0 { 1000 } else if k == 1 { 900 } else if k == 2 { 500 } else if k == 3 { 400 } else if k == 4 { 100 } else if k == 5 { 90 } else if k == 6 { 50 }
    else if k == 7 { 40 } else if k == 8 { 10 } else if k == 9 { 9 } else if k == 10 { 5 } else if k == 11 { 4 } else { 1 }
}
pub open spec fn gsym(k: int) -> Seq<char> {
    if k == 0 { seq!['M'] } else if k == 1 { seq!['C', 'M'] } else if k == 2 { seq!['D'] } else if k == 3 { seq!['C', 'D'] } else if k == 4 { seq!['C'] } else if k == 5 { seq!['X', 'C'] } else if k == 6 { seq!['L'] }
    else if k == 7 { seq!['X', 'L'] } else if k == 8 { seq!['X'] } else if k == 9 { seq!['I', 'X'] } else if k == 10 { seq!['V'] } else if k == 11 { seq!['I', 'V'] } else { seq!['I'] }
}
pub open spec fn greedy(k: int, n: nat) -> Seq<char>
    decreases 13 - k, n
{
    if k < 0 || k >= 13 { seq![] } else if n >= gval(k) { gsym(k) + greedy(k, (n - gval(k)) as nat) } else { greedy(k + 1, n) }
}
pub proof fn g_ones(n: nat)
    requires n < 10,
    ensures greedy(9, n) =~= digit(n, 'I', 'V', 'X'),
{ reveal_with_fuel(greedy, 8); }
pub proof fn g_tens(n: nat)
    requires n < 100,
    ensures greedy(5, n) =~= digit(n / 10, 'X', 'L', 'C') + digit(n % 10, 'I', 'V', 'X'),
{
    let u = n % 10;
    g_ones(u);
    let d = n / 10;
    assert(n == 10 * d + u);
    assert(greedy(9, u) == digit(u, 'I', 'V', 'X'));
    if d == 9 { reveal_with_fuel(greedy, 6); }
    else if d == 8 || d == 7 || d == 6 || d == 5 { reveal_with_fuel(greedy, 8); }
    else if d == 4 { reveal_with_fuel(greedy, 6); }
    else { reveal_with_fuel(greedy, 8); }
}
pub proof fn take(k: int, n: nat)
    requires 0 <= k < 13, n >= gval(k),
    ensures greedy(k, n) == gsym(k) + greedy(k, (n - gval(k)) as nat),
{ }
pub proof fn skip(k: int, n: nat)
    requires 0 <= k < 13, n < gval(k),
    ensures greedy(k, n) == greedy(k + 1, n),
{ }
pub proof fn g_hundreds(n: nat)
    requires n < 1000,
    ensures greedy(1, n) =~= digit(n / 100, 'C', 'D', 'M') + digit(n / 10 % 10, 'X', 'L', 'C') + digit(n % 10, 'I', 'V', 'X'),
{
    hide(greedy);
    let u = (n % 100) as nat;
    g_tens(u);
    let d = (n / 100) as nat;
    assert(n == 100 * d + u);
    assert(u / 10 == n / 10 % 10 && u % 10 == n % 10) by (nonlinear_arith) requires u == n % 100;
    let t = greedy(5, u);
    assert(greedy(1, n) =~= digit(d, 'C', 'D', 'M') + t) by {
        if d == 9 { take(1, n); skip(1, u); skip(2, u); skip(3, u); skip(4, u); }
        else if d >= 5 {
            skip(1, n); take(2, n);
            let m = (n - 500) as nat;
            skip(2, m); skip(3, m);
            hundreds_tail((d - 5) as nat, u);
        }
        else if d == 4 { skip(1, n); skip(2, n); take(3, n); skip(3, u); skip(4, u); }
        else { skip(1, n); skip(2, n); skip(3, n); hundreds_tail(d, u); }
    }
}
pub proof fn hundreds_tail(d: nat, u: nat)
    requires d < 4, u < 100,
    ensures greedy(4, 100 * d + u) =~= digit(d, 'C', 'D', 'M') + greedy(5, u),
    decreases d,
{
    hide(greedy);
    if d == 0 { skip(4, u); } else { take(4, 100 * d + u); hundreds_tail((d - 1) as nat, u); }
}
pub proof fn g_roman(n: nat)
    ensures greedy(0, n) == roman(n),
    decreases n,
{
    hide(greedy);
    hide(digit);
    hide(thousands);
    if n >= 1000 {
        let m = (n - 1000) as nat;
        g_roman(m);
        take(0, n);
        thousands_step(n / 1000);
        digits_same(m);
        let tail = digit(m / 100 % 10, 'C', 'D', 'M') + digit(m / 10 % 10, 'X', 'L', 'C') + digit(m % 10, 'I', 'V', 'X');
        assert(roman(m) =~= thousands(m / 1000) + tail);
        assert(roman(n) =~= thousands(n / 1000) + tail);
        assert(greedy(0, n) =~= roman(n));
    } else {
        skip(0, n);
        g_hundreds(n);
        assert(n / 1000 == 0);
        assert(n / 100 % 10 == n / 100);
        thousands_step(0);
        assert(greedy(0, n) =~= roman(n));
    }
}
pub proof fn digits_same(m: nat)
    ensures (m + 1000) / 1000 == m / 1000 + 1, (m + 1000) / 100 % 10 == m / 100 % 10, (m + 1000) / 10 % 10 == m / 10 % 10, (m + 1000) % 10 == m % 10,
{
    assert((m + 1000) / 100 == m / 100 + 10);
    assert((m + 1000) / 10 == m / 10 + 100);
}
pub proof fn thousands_step(k: nat)
    ensures k == 0 ==> thousands(k) == Seq::<char>::empty(), k > 0 ==> thousands(k) == seq!['M'] + thousands((k - 1) as nat),
{ }
pub open spec fn upper_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 'A' <= #[trigger] s[i] <= 'Z' }
pub proof fn thousands_upper(k: nat)
    ensures upper_ascii(thousands(k)),
    decreases k,
{ if k > 0 { thousands_upper((k - 1) as nat); } }
pub proof fn roman_upper(n: nat)
    ensures upper_ascii(roman(n)),
{ thousands_upper(n / 1000); }

pub open spec fn table_ok(t: Seq<(usize, &str)>) -> bool {
    t.len() == 13 && forall|k: int| #![trigger t[k]] 0 <= k < 13 ==> t[k].0 == gval(k) && t[k].1@ == gsym(k)
}
//@ fn crates/public_api/src/text_block.rs to_roman_upper
ensures r@ == roman(n as nat),
//@ ret r
//@ top
//raw
let ghost n0 = n;
//@ rwstmt const VALUES: &[(usize, &str)] = &$x; => let table: [(usize, &'static str); 13] = $x;
//@ rwstmt for __item in VALUES { $b } => for __item in table.iter() { $b }
//@ rw result.push_str(sym) => std_push_str(&mut result, sym)
//@ loop 0 before
reveal_strlit("M"); reveal_strlit("CM"); reveal_strlit("D"); reveal_strlit("CD"); reveal_strlit("C"); reveal_strlit("XC"); reveal_strlit("L"); reveal_strlit("XL");
reveal_strlit("X"); reveal_strlit("IX"); reveal_strlit("V"); reveal_strlit("IV"); reveal_strlit("I");
assert forall|k: int| #![trigger table@[k]] 0 <= k < 13 implies table@[k].0 == gval(k) && table@[k].1@ == gsym(k) by {
    assert(table@[k].1@ =~= gsym(k));
}
assert(table_ok(table@));
g_roman(n as nat);
//@ loop 0 it
invariant table_ok(it.seq().map_values(|x: &(usize, &'static str)| *x)), result@ + greedy(it.index@, n as nat) =~= roman(n0 as nat),
//@ loop 0 top
let k = it.index@;
assert(it.seq().map_values(|x: &(usize, &'static str)| *x)[k] == *__item);
//@ loop 1
invariant val == gval(it.index@), sym@ == gsym(it.index@), 0 <= it.index@ < 13, result@ + greedy(it.index@, n as nat) =~= roman(n0 as nat),
decreases n,
//@ loop 1 top
let ghost s0 = result@;
assert(greedy(it.index@, n as nat) == sym@ + greedy(it.index@, (n - val) as nat));
//@ end

//@ fn crates/public_api/src/text_block.rs to_roman_lower
ensures r@ == roman(n as nat).map_values(|c: char| lower(c)),
//@ ret r
//@ rw to_roman_upper(n).to_lowercase() => std_lower(to_roman_upper(n))
//@ top
roman_upper(n as nat);
//@ end

//@ fn crates/public_api/src/text_block.rs format_list_marker
requires item_index < usize::MAX,
ensures r@ == list_dto.prefix@ + marker_body(list_dto.style, (item_index + 1) as nat) + list_dto.suffix@,
//@ ret r
//@ top
reveal_strlit("\u{2022}"); reveal_strlit("\u{25E6}"); reveal_strlit("\u{25AA}");
assert("\u{2022}"@ =~= seq!['\u{2022}']);
assert("\u{25E6}"@ =~= seq!['\u{25E6}']);
assert("\u{25AA}"@ =~= seq!['\u{25AA}']);
//@ rw format!("{number}") => std_decimal(number)
//@ rw $x.to_string() => std_to_string($x)
//@ rw format!("{}{marker_body}{}", list_dto.prefix, list_dto.suffix) => std_concat3(&list_dto.prefix, &marker_body, &list_dto.suffix)
//@ end
}
fn main() {}
