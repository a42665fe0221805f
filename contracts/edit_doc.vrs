#[derive(Clone, Copy)]
pub struct Document { pub character_count: i64 } // TRUSTED: the field of Document used here
impl Store {
    #[verifier::external_body] // TRUSTED: writing the document's record changes the count alone
    pub fn update_document(&mut self, d: &Document) -> (r: Result<Document>)
        ensures final(self).texts == old(self).texts, final(self).format_runs == old(self).format_runs, final(self).positions == old(self).positions, final(self).frames == old(self).frames, final(self).members == old(self).members, final(self).flow == old(self).flow,
            r is Ok ==> final(self).count@ == d.character_count,
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading the document's record
    pub fn document(&self, id: &EntityId) -> (r: Result<Option<Document>>) ensures r is Ok && r->Ok_0 is Some ==> r->Ok_0->0.character_count == self.count@ { unimplemented!() }
}
pub proof fn unsplice(t: Seq<char>, a: int, ins: Seq<char>)
    requires 0 <= a <= t.len(),
    ensures ({ let u = splice(t, a, a, ins); let lo = blen(t.take(a)) as int; let hi = (blen(t.take(a)) + blen(ins)) as int; on_char(u, lo) && on_char(u, hi) && char_of(u, lo) == a && char_of(u, hi) == a + ins.len() && splice(u, a, a + ins.len(), Seq::empty()) == t && (blen(ins) == 0 ==> u == t) && blen(u) == blen(t) + blen(ins) && hi <= blen(u) }),
{
    let u = splice(t, a, a, ins); let n = ins.len() as int; let lo = blen(t.take(a)) as int; let hi = (blen(t.take(a)) + blen(ins)) as int;
    splice_bytes(t, a, a, ins, a); splice_bytes(t, a, a, ins, a + n); splice_bytes(t, a, a, ins, u.len() as int); take_all(ins); take_all(u); take_all(t); blen_mono(u, a + n, u.len() as int);
    assert(at(u, lo, a)); assert(at(u, hi, a + n)); at_one(u, lo, a); at_one(u, hi, a + n); blen_ge(ins); if n == 0 { assert(u =~= t); } assert(splice(u, a, a + n, Seq::empty()) =~= t);
}
#[verifier::external_body] // TRUSTED: Vec::clone returns an equal list
pub fn std_clone_runs(v: &Vec<FormatRun>) -> (r: Vec<FormatRun>) ensures r@ == v@ { v.clone() }
#[verifier::external_body] // TRUSTED: Option::ok_or_else
pub fn std_found(d: Option<Document>) -> (r: Result<Document>) ensures r is Ok ==> d == Some(r->Ok_0) { unimplemented!() }
pub fn std_no_images() -> (r: Vec<ImageAnchor>) ensures r@.len() == 0 { Vec::new() }
