// ---- strings: what the functions of std do to the sequence of characters
pub trait AsText { spec fn text(&self) -> Seq<char>; }
impl AsText for char { open spec fn text(&self) -> Seq<char> { seq![*self] } }
impl<'a> AsText for &'a str { open spec fn text(&self) -> Seq<char> { (*self)@ } }
#[verifier::allow(undeclared_external_trait)]
#[verifier::external_body] // TRUSTED: to_string of a char or a str is its text
pub fn std_to_string<T: AsText + ToString>(x: T) -> (r: String) ensures r@ == x.text() { x.to_string() }
#[verifier::external_body] // TRUSTED: String::push_str appends
pub fn std_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] // TRUSTED: String::push appends one character
pub fn std_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
