use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
#[derive(Clone, Copy)]
pub struct Stamp { pub x: i64 }
//@ rwtype chrono::DateTime<chrono::Utc> => Stamp
pub mod common { pub mod entities {
use vstd::prelude::*;
use super::super::{EntityId, Stamp};
//@ item crates/common/src/entities.rs Alignment
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs MarkerType
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs TextDirection
//@ derive Clone, Copy
//@ item crates/common/src/entities.rs Block
} }
pub mod dtos {
use vstd::prelude::*;
use super::common::entities::TextDirection;
//@ item crates/document_formatting/src/dtos.rs Alignment
//@ derive Clone, Copy
//@ item crates/document_formatting/src/dtos.rs MarkerType
//@ derive Clone, Copy
//@ item crates/document_formatting/src/dtos.rs SetBlockFormatDto
}
use common::entities::{Alignment, MarkerType, TextDirection, Block};
use dtos::SetBlockFormatDto;
#[verifier::external_body] // TRUSTED: String::clone returns an equal value
pub fn std_clone_string(s: &String) -> (r: String) ensures r == *s { s.clone() }
#[verifier::external_body] // TRUSTED: derive(Clone) on Block returns an equal value
pub fn std_clone_block(b: &Block) -> (r: Block) ensures r == *b { unimplemented!() }
#[verifier::external_body] // TRUSTED: the clock
pub fn std_now() -> Stamp { unimplemented!() }
pub fn std_clamp(v: i64, a: i64, b: i64) -> (r: i64) requires a <= b, ensures r == if v < a { a } else if v > b { b } else { v } { if v < a { a } else if v > b { b } else { v } }
pub fn max_i64(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min_i64(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub open spec fn over<T>(f: Option<T>, d: Option<T>) -> Option<T> { if d is Some { d } else { f } }
pub open spec fn side(a: dtos::Alignment) -> Alignment { match a { dtos::Alignment::Left => Alignment::Left, dtos::Alignment::Right => Alignment::Right, dtos::Alignment::Center => Alignment::Center, dtos::Alignment::Justify => Alignment::Justify } }
pub open spec fn tick(m: dtos::MarkerType) -> MarkerType { match m { dtos::MarkerType::NoMarker => MarkerType::NoMarker, dtos::MarkerType::Unchecked => MarkerType::Unchecked, dtos::MarkerType::Checked => MarkerType::Checked } }
//@ fn crates/document_formatting/src/use_cases/set_block_format_uc.rs alignment_to_entity
ensures r == side(*a),
//@ ret r
//@ end
//@ fn crates/document_formatting/src/use_cases/set_block_format_uc.rs marker_to_entity
ensures r == tick(*m),
//@ ret r
//@ end
/// a paragraph with what the request names put over it
pub open spec fn laid(b: Block, d: SetBlockFormatDto, at: Stamp) -> Block {
    Block {
        fmt_alignment: match d.alignment { Some(a) => Some(side(a)), None => b.fmt_alignment },
        fmt_heading_level: match d.heading_level { Some(v) => Some(if v < 0 { 0i64 } else if v > 6 { 6i64 } else { v }), None => b.fmt_heading_level },
        fmt_marker: match d.marker { Some(m) => Some(tick(m)), None => b.fmt_marker },
        fmt_top_margin: over(b.fmt_top_margin, d.top_margin), fmt_bottom_margin: over(b.fmt_bottom_margin, d.bottom_margin), fmt_left_margin: over(b.fmt_left_margin, d.left_margin), fmt_right_margin: over(b.fmt_right_margin, d.right_margin), fmt_indent: over(b.fmt_indent, d.indent), fmt_text_indent: over(b.fmt_text_indent, d.text_indent), fmt_line_height: over(b.fmt_line_height, d.line_height), fmt_non_breakable_lines: over(b.fmt_non_breakable_lines, d.non_breakable_lines), fmt_direction: over(b.fmt_direction, d.direction), fmt_background_color: over(b.fmt_background_color, d.background_color), fmt_is_code_block: over(b.fmt_is_code_block, d.is_code_block), fmt_code_language: over(b.fmt_code_language, d.code_language),
        updated_at: at, ..b
    }
}
pub open spec fn lo(d: SetBlockFormatDto) -> int { if d.position <= d.anchor { d.position as int } else { d.anchor as int } }
pub open spec fn hi(d: SetBlockFormatDto) -> int { if d.position <= d.anchor { d.anchor as int } else { d.position as int } }
/// the selection touches the paragraph: one of its ends, or a place within
pub open spec fn touched(b: Block, ts: Map<u64, Seq<char>>, d: SetBlockFormatDto) -> bool { b.document_position <= hi(d) && b.document_position + ts[b.id].len() >= lo(d) }
/// the records of the paragraphs, and their texts
pub struct Records { pub m: Ghost<Map<u64, Block>>, pub texts: Ghost<Map<u64, Seq<char>>> }
pub open spec fn put_all(m: Map<u64, Block>, v: Seq<Block>) -> Map<u64, Block>
    decreases v.len()
{ if v.len() == 0 { m } else { put_all(m, v.drop_last()).insert(v.last().id, v.last()) } }
impl Records {
    #[verifier::external_body] // TRUSTED: block_char_length, as proved in rope
    pub fn char_length(&self, b: &Block) -> (r: i64) ensures r == self.texts@[b.id].len() { unimplemented!() }
    #[verifier::external_body] // TRUSTED: writing records (the generated table and command, as proved for documents in meta)
    pub fn update_block_multi(&mut self, v: &Vec<Block>) -> (r: Result<()>) ensures r is Ok ==> final(self).m@ == put_all(old(self).m@, v@), final(self).texts == old(self).texts { unimplemented!() }
}
pub open spec fn fine(bs: Seq<Block>, t: Map<u64, Seq<char>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> (#[trigger] bs[i]).id != (#[trigger] bs[j]).id
    &&& forall|i: int| 0 <= i < bs.len() ==> 0 <= (#[trigger] bs[i]).document_position && bs[i].document_position + t[bs[i].id].len() <= i64::MAX
}
pub open spec fn listed(bs: Seq<Block>, id: u64) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).id == id }
/// v is the touched ones of the first k paragraphs, with the request laid over them
pub open spec fn picked(v: Seq<Block>, bs: Seq<Block>, k: int, ts: Map<u64, Seq<char>>, d: SetBlockFormatDto) -> bool
    decreases k
{
    if k <= 0 { v.len() == 0 } else if touched(bs[k - 1], ts, d) { v.len() > 0 && v.last() == laid(bs[k - 1], d, v.last().updated_at) && picked(v.drop_last(), bs, k - 1, ts, d) } else { picked(v, bs, k - 1, ts, d) }
}
pub open spec fn held(m: Map<u64, Block>, id: u64) -> Option<Block> { if m.contains_key(id) { Some(m[id]) } else { None } }
pub open spec fn laid_out(n: Map<u64, Block>, m: Map<u64, Block>, b: Block, ts: Map<u64, Seq<char>>, d: SetBlockFormatDto) -> bool { if touched(b, ts, d) { held(n, b.id) is Some && held(n, b.id)->0 == laid(b, d, held(n, b.id)->0.updated_at) } else { held(n, b.id) == held(m, b.id) } }
pub proof fn written(m: Map<u64, Block>, v: Seq<Block>, bs: Seq<Block>, k: int, ts: Map<u64, Seq<char>>, d: SetBlockFormatDto)
    requires picked(v, bs, k, ts, d), 0 <= k <= bs.len(), fine(bs, ts),
    ensures
        forall|i: int| 0 <= i < k ==> laid_out(put_all(m, v), m, #[trigger] bs[i], ts, d),
        forall|id: u64| !listed(bs.take(k), id) ==> #[trigger] held(put_all(m, v), id) == held(m, id),
    decreases k,
{
    if k > 0 {
        let w = if touched(bs[k - 1], ts, d) { v.drop_last() } else { v };
        written(m, w, bs, k - 1, ts, d); let n = put_all(m, v); let p = put_all(m, w);
        assert(!listed(bs.take(k - 1), bs[k - 1].id)) by { if listed(bs.take(k - 1), bs[k - 1].id) { let i = choose|i: int| 0 <= i < bs.take(k - 1).len() && (#[trigger] bs.take(k - 1)[i]).id == bs[k - 1].id; assert(bs[i].id != bs[k - 1].id); } }
        assert(held(p, bs[k - 1].id) == held(m, bs[k - 1].id));
        assert forall|i: int| 0 <= i < k implies laid_out(n, m, #[trigger] bs[i], ts, d) by { if i < k - 1 { assert(laid_out(p, m, bs[i], ts, d)); assert(bs[i].id != bs[k - 1].id); } }
        assert forall|id: u64| !listed(bs.take(k), id) implies #[trigger] held(n, id) == held(m, id) by {
            assert(bs.take(k)[k - 1].id != id);
            if listed(bs.take(k - 1), id) { let i = choose|i: int| 0 <= i < bs.take(k - 1).len() && (#[trigger] bs.take(k - 1)[i]).id == id; assert(bs.take(k)[i].id == id); }
            assert(held(p, id) == held(m, id));
        }
    }
}
pub proof fn none_picked(bs: Seq<Block>, ts: Map<u64, Seq<char>>, d: SetBlockFormatDto) ensures picked(Seq::empty(), bs, 0, ts, d), forall|m: Map<u64, Block>| #[trigger] put_all(m, Seq::empty()) == m { }
pub proof fn bounds(bs: Seq<Block>, t: Map<u64, Seq<char>>) requires fine(bs, t), ensures forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).document_position + t[bs[i].id].len() <= i64::MAX && 0 <= bs[i].document_position { }
pub proof fn pick(pre: Seq<Block>, v: Seq<Block>, bs: Seq<Block>, k: int, ts: Map<u64, Seq<char>>, d: SetBlockFormatDto)
    requires 0 <= k < bs.len(), picked(pre, bs, k, ts, d), if touched(bs[k], ts, d) { v.len() > 0 && v == pre.push(v.last()) && v.last() == laid(bs[k], d, v.last().updated_at) } else { v == pre },
    ensures picked(v, bs, k + 1, ts, d),
{ if touched(bs[k], ts, d) { assert(v.drop_last() =~= pre); } }
//@ rw std::cmp::max($a, $b) => max_i64($a, $b)
//@ rw std::cmp::min($a, $b) => min_i64($a, $b)
//@ rw block.clone() => std_clone_block(block)
//@ rw chrono::Utc::now() => std_now()
//@ rw $v.clamp(0, 6) => std_clamp($v, 0, 6)
//@ rw d.clone() => *d
//@ rw c.clone() => std_clone_string(c)
//@ rw l.clone() => std_clone_string(l)
//@ rw block_char_length(block, &store) => uow.char_length(block)
//@ fn crates/document_formatting/src/use_cases/set_block_format_uc.rs execute_set_block_format
//@ from let mut updated = block.clone();
//@ to blocks_to_update.push(updated);
//@ rename lay_one
//@ sig (block: &Block, dto: &SetBlockFormatDto, blocks_to_update: &mut Vec<Block>)
ensures final(blocks_to_update)@.len() == old(blocks_to_update)@.len() + 1, final(blocks_to_update)@ == old(blocks_to_update)@.push(laid(*block, *dto, final(blocks_to_update)@.last().updated_at)),
//@ rw if let Some(ref $n) = dto.$x { updated.$y = Some($e); } => { updated.$y = match &dto.$x { Some($n) => Some($e), None => updated.$y }; }
//@ rw if let Some(v) = dto.$x { updated.$y = Some($e); } => { updated.$y = match dto.$x { Some(v) => Some($e), None => updated.$y }; }
//@ end
//@ fn crates/document_formatting/src/use_cases/set_block_format_uc.rs execute_set_block_format
//@ from let range_start = std::cmp::min(dto.position, dto.anchor);
//@ to if !blocks_to_update.is_empty() $b
//@ rename lay_blocks
//@ yields Ok(())
//@ sig (uow: &mut Records, blocks: Vec<Block>, dto: &SetBlockFormatDto) -> Result<()>
requires fine(blocks@, old(uow).texts@),
ensures r is Ok ==> (forall|i: int| 0 <= i < blocks@.len() ==> laid_out(final(uow).m@, old(uow).m@, #[trigger] blocks@[i], old(uow).texts@, *dto)) && (forall|id: u64| !listed(blocks@, id) ==> #[trigger] held(final(uow).m@, id) == held(old(uow).m@, id)),
    final(uow).texts == old(uow).texts,
//@ ret r
//@ rw if overlaps { let mut updated = block.clone(); $b } => if overlaps { lay_one(block, dto, &mut blocks_to_update); }
//@ rwstmt let store = uow.store(); =>
//@ top
//raw hide(picked); hide(put_all); hide(fine);  proof { none_picked(blocks@, uow.texts@, *dto); bounds(blocks@, uow.texts@); }
//@ loop 0 it
invariant
    it.seq().len() == blocks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == blocks@[i], range_start == lo(*dto), range_end == hi(*dto), fine(blocks@, uow.texts@), forall|i: int| 0 <= i < blocks@.len() ==> (#[trigger] blocks@[i]).document_position + uow.texts@[blocks@[i].id].len() <= i64::MAX && 0 <= blocks@[i].document_position,
    picked(blocks_to_update@, blocks@, it.index@ as int, uow.texts@, *dto),
//@ loop 0 top
//raw let ghost pre = blocks_to_update@; proof { assert(*it.seq()[it.index@ as int] == blocks@[it.index@ as int]); assert(blocks@[it.index@ as int].document_position + uow.texts@[blocks@[it.index@ as int].id].len() <= i64::MAX); }
//@ loop 0 bottom
pick(pre, blocks_to_update@, blocks@, it.index@ as int, uow.texts@, *dto);
//@ loop 0 after
written(uow.m@, blocks_to_update@, blocks@, blocks@.len() as int, uow.texts@, *dto); assert(blocks@.take(blocks@.len() as int) =~= blocks@);
if blocks_to_update@.len() == 0 { assert(blocks_to_update@ =~= Seq::empty()); none_picked(blocks@, uow.texts@, *dto); }
//@ end
}
fn main() {}
