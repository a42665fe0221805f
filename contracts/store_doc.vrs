pub struct Store { pub texts: Ghost<Map<u64, Seq<char>>>, pub runs: Ghost<Map<u64, Seq<FormatRun>>> }
pub open spec fn text_of(s: Store, b: Block) -> Seq<char> { s.texts@[b.id] }
pub open spec fn runs_at(s: Store, b: Block) -> Seq<FormatRun> { s.runs@[b.id] }
pub open spec fn lines_of(s: Store, b: Seq<Block>) -> Lines { Seq::new(b.len(), |i: int| text_of(s, b[i])) }
/// paragraphs in document order, without images
pub open spec fn document(s: Store, b: Seq<Block>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).document_position == at_line(lines_of(s, b), i) && runs_of(runs_at(s, b[i]), text_of(s, b[i]))
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).id != (#[trigger] b[j]).id
    &&& joined(lines_of(s, b)).len() < 0x7fff_ffff
}
#[verifier::external_body] // TRUSTED here: the characters of the paragraph (proved in the rope module)
pub fn block_char_length(b: &Block, s: &Store) -> (r: i64) ensures r == text_of(*s, *b).len() { unimplemented!() }
#[verifier::external_body] // TRUSTED here: the text of the paragraph (proved in the rope module)
pub fn block_content_via_store(b: &Block, s: &Store) -> (r: String) ensures r@ == text_of(*s, *b) { unimplemented!() }
#[verifier::external_body] // TRUSTED: the run table of a paragraph, empty when there is none
pub fn stored_runs(s: &Store, id: u64) -> (r: Vec<FormatRun>) ensures r@ == s.runs@[id] { unimplemented!() }
#[verifier::external_body] // TRUSTED: paragraphs have no images (stated bound of the claim)
pub fn stored_images(s: &Store, id: u64) -> (r: Vec<ImageAnchor>) ensures r@.len() == 0 { unimplemented!() }
//@ fn crates/common/src/format_runs_query.rs get_format_runs
ensures r@ == store.runs@[block_id],
//@ ret r
//@ rw store.format_runs.read().unwrap().get(&block_id).cloned().unwrap_or_default() => stored_runs(store, block_id)
//@ end
//@ fn crates/common/src/format_runs_query.rs get_block_images
ensures r@.len() == 0,
//@ ret r
//@ rw store.block_images.read().unwrap().get(&block_id).cloned().unwrap_or_default() => stored_images(store, block_id)
//@ end
//@ fn crates/common/src/format_runs_query.rs inline_segments_for_block
requires runs_of(store.runs@[block_id], block_plain_text@),
ensures texts(r@), expand(seg_pieces(r@)) == written(block_plain_text@, store.runs@[block_id]),
//@ ret r
//@ end
