use vstd::prelude::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
//@ item crates/common/src/entities.rs ListStyle
//@ item crates/common/src/parser_tools/list_grouper.rs ListGrouper
pub type EntityId = u64;
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
//@ rwtype chrono::DateTime<chrono::Utc> => Stamp
#[derive(Clone, Copy)]
pub struct Stamp { pub x: i64 }
//@ item crates/common/src/entities.rs List
//@ item crates/common/src/parser_tools/fragment_schema.rs FragmentList
//@ item crates/common/src/parser_tools/fragment_schema.rs FragmentBlock only list
//@ item crates/common/src/parser_tools/content_parser.rs ParsedBlock only list_style, list_indent
impl Clone for ListStyle {
    #[verifier::external_body] // TRUSTED: derive(Clone) on ListStyle returns an equal value
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: derive(PartialEq) on ListStyle is equality
pub fn style_eq(a: &ListStyle, b: &ListStyle) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

// ---- specification: one open list per level
pub open spec fn at(g: ListGrouper, level: int) -> Option<(EntityId, ListStyle)> {
    if 0 <= level < g.active@.len() { g.active@[level] } else { None }
}
impl ListGrouper {
//@ fn crates/common/src/parser_tools/list_grouper.rs ListGrouper::try_reuse
requires indent < u32::MAX,
ensures
    // an item joins the list that is open at its level exactly when the styles agree
    r == (if at(*old(self), indent as int) is Some && at(*old(self), indent as int)->Some_0.1 == *style { Some(at(*old(self), indent as int)->Some_0.0) } else { None }),
    // deeper lists end, the lists at this level and above stay open
    forall|l: int| #[trigger] at(*final(self), l) == (if l <= indent { at(*old(self), l) } else { None }),
//@ rw existing_style == style => style_eq(existing_style, style)
//@ end
//@ fn crates/common/src/parser_tools/list_grouper.rs ListGrouper::register
ensures
    forall|l: int| #[trigger] at(*final(self), l) == (if l == indent { Some((id, style)) } else { at(*old(self), l) }),
//@ loop 0
invariant
    idx == indent, forall|l: int| #[trigger] at(*self, l) == at(*old(self), l),
    self.active@.len() >= old(self).active@.len(),
decreases idx + 1 - self.active@.len(),
//@ loop 0 top
//raw let ghost g0 = *self;
//@ loop 0 bottom
assert forall|l: int| #[trigger] at(*self, l) == at(*old(self), l) by { assert(at(g0, l) == at(*old(self), l)); }
//@ loop 0 after
//raw let ghost g1 = *self;
//@ bottom
assert(self.active@ == g1.active@.update(idx as int, Some((id, style))));
assert forall|l: int| #[trigger] at(*self, l) == (if l == indent { Some((id, style)) } else { at(*old(self), l) }) by { assert(at(g1, l) == at(*old(self), l)); }
//@ end
//@ fn crates/common/src/parser_tools/list_grouper.rs ListGrouper::reset
ensures forall|l: int| #[trigger] at(*final(self), l) is None,
//@ end
}

// ---- the importers: which list a new paragraph joins
/// the unit of work as far as lists go: the lists made so far
pub struct Lists { pub made: Ghost<Seq<List>> }
impl Lists {
    #[verifier::external_body] // TRUSTED: create_list stores the given list under a new id
    pub fn create_list(&mut self, list: &List, owner: EntityId, index: i32) -> (r: Result<List>)
        ensures r is Ok ==> r->Ok_0.style == list.style && r->Ok_0.indent == list.indent && r->Ok_0.prefix@ == list.prefix@ && r->Ok_0.suffix@ == list.suffix@ && final(self).made@ == old(self).made@.push(r->Ok_0),
            r is Err ==> final(self).made@ == old(self).made@,
    { unimplemented!() }
}
#[verifier::external_body] // TRUSTED: the clock
pub fn std_now() -> Stamp { unimplemented!() }
#[verifier::external_body] // TRUSTED: String::clone returns an equal value
pub fn std_clone_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] // TRUSTED: String::new() is empty
pub fn std_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] // TRUSTED: derive(Default) on List gives empty prefix and suffix
pub fn std_plain_list(style: ListStyle, indent: i64) -> (r: List)
    ensures r.style == style, r.indent == indent, r.prefix@.len() == 0, r.suffix@.len() == 0,
{ unimplemented!() }
/// an item of the given style at the given level: it joins the list open there if the style is the same, else a new
/// list of that style and level; afterwards that list is the open one, outer lists stay open and deeper ones end
pub open spec fn joined(g: ListGrouper, h: ListGrouper, before: Seq<List>, after: Seq<List>, style: ListStyle, level: int, id: EntityId) -> bool {
    at(h, level) == Some((id, style))
    && (forall|l: int| l != level ==> #[trigger] at(h, l) == (if l < level { at(g, l) } else { None }))
    && (if at(g, level) is Some && at(g, level)->Some_0.1 == style { id == at(g, level)->Some_0.0 && after == before }
        else { after.len() == before.len() + 1 && after == before.push(after.last()) && after.last().id == id && after.last().style == style && after.last().indent == level })
}
/// a paragraph that is no list item ends all lists
pub open spec fn ended(h: ListGrouper, before: Seq<List>, after: Seq<List>) -> bool { (forall|l: int| #[trigger] at(h, l) is None) && after == before }
impl FragmentList {
//@ fn crates/common/src/parser_tools/fragment_schema.rs FragmentList::to_entity
ensures r.style == self.style, r.indent == self.indent, r.prefix@ == self.prefix@, r.suffix@ == self.suffix@,
//@ rw chrono::Utc::now() => std_now()
//@ rw self.prefix.clone() => std_clone_string(&self.prefix)
//@ rw self.suffix.clone() => std_clone_string(&self.suffix)
//@ end
}
//@ fn crates/document_editing/src/use_cases/insert_fragment_uc.rs insert_mixed_fragment
//@ from let list_id = if let Some(ref frag_list) = frag_block.list $a else $b;
//@ to let list_id = if let Some(ref frag_list) = frag_block.list $a else $b;
//@ rename mixed_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, frag_block: &FragmentBlock, doc_id: EntityId) -> Result<Option<EntityId>>
//@ yields Ok(list_id)
requires frag_block.list is Some ==> 0 <= frag_block.list->Some_0.indent < u32::MAX,
ensures
    r is Ok && frag_block.list is Some ==> r->Ok_0 is Some && joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, frag_block.list->Some_0.style, frag_block.list->Some_0.indent as int, r->Ok_0->Some_0),
    r is Ok && frag_block.list is None ==> r->Ok_0 is None && ended(*final(list_grouper), old(uow).made@, final(uow).made@),
//@ ret r
//@ end
//@ fn crates/document_editing/src/use_cases/insert_fragment_uc.rs execute_insert_fragment
//@ from let head_list_id = if let Some(ref frag_list) = first_frag.list $a else $b;
//@ to let head_list_id = if let Some(ref frag_list) = first_frag.list $a else $b;
//@ rename head_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, first_frag: &FragmentBlock, doc_id: EntityId) -> Result<Option<EntityId>>
//@ yields Ok(head_list_id)
requires first_frag.list is Some ==> 0 <= first_frag.list->Some_0.indent < u32::MAX,
ensures
    r is Ok && first_frag.list is Some ==> r->Ok_0 is Some && joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, first_frag.list->Some_0.style, first_frag.list->Some_0.indent as int, r->Ok_0->Some_0),
    r is Ok && first_frag.list is None ==> r->Ok_0 is None && ended(*final(list_grouper), old(uow).made@, final(uow).made@),
//@ ret r
//@ end
//@ fn crates/document_editing/src/use_cases/insert_fragment_uc.rs execute_insert_fragment
//@ from let list_id = if let Some(ref frag_list) = frag_block.list $a else $b;
//@ to let list_id = if let Some(ref frag_list) = frag_block.list $a else $b;
//@ rename middle_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, frag_block: &FragmentBlock, doc_id: EntityId) -> Result<Option<EntityId>>
//@ yields Ok(list_id)
requires frag_block.list is Some ==> 0 <= frag_block.list->Some_0.indent < u32::MAX,
ensures
    r is Ok && frag_block.list is Some ==> r->Ok_0 is Some && joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, frag_block.list->Some_0.style, frag_block.list->Some_0.indent as int, r->Ok_0->Some_0),
    r is Ok && frag_block.list is None ==> r->Ok_0 is None && ended(*final(list_grouper), old(uow).made@, final(uow).made@),
//@ ret r
//@ end
//@ fn crates/document_editing/src/use_cases/insert_html_at_position_uc.rs execute_content_insert
//@ from let head_list_id = if let Some(ref list_style) = first_parsed.list_style $a else $b;
//@ to let head_list_id = if let Some(ref list_style) = first_parsed.list_style $a else $b;
//@ rename html_head_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, first_parsed: &ParsedBlock, doc_id: EntityId, now: Stamp) -> Result<Option<EntityId>>
//@ yields Ok(head_list_id)
requires first_parsed.list_indent < u32::MAX,
ensures
    r is Ok && first_parsed.list_style is Some ==> r->Ok_0 is Some && joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, first_parsed.list_style->Some_0, first_parsed.list_indent as int, r->Ok_0->Some_0),
    r is Ok && first_parsed.list_style is None ==> r->Ok_0 is None && ended(*final(list_grouper), old(uow).made@, final(uow).made@),
//@ ret r
//@ rw String::new() => std_empty()
//@ end
//@ fn crates/document_editing/src/use_cases/insert_html_at_position_uc.rs execute_content_insert
//@ from let list_id = if let Some(ref list_style) = parsed.list_style $a else $b;
//@ to let list_id = if let Some(ref list_style) = parsed.list_style $a else $b;
//@ rename html_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, parsed: &ParsedBlock, doc_id: EntityId, now: Stamp) -> Result<Option<EntityId>>
//@ yields Ok(list_id)
requires parsed.list_indent < u32::MAX,
ensures
    r is Ok && parsed.list_style is Some ==> r->Ok_0 is Some && joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, parsed.list_style->Some_0, parsed.list_indent as int, r->Ok_0->Some_0),
    r is Ok && parsed.list_style is None ==> r->Ok_0 is None && ended(*final(list_grouper), old(uow).made@, final(uow).made@),
//@ ret r
//@ rw String::new() => std_empty()
//@ end
//@ fn crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs execute_content_insert
//@ from let list_id = if let Some(ref list_style) = parsed.list_style $a else $b;
//@ to let list_id = if let Some(ref list_style) = parsed.list_style $a else $b;
//@ rename markdown_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, parsed: &ParsedBlock, doc_id: EntityId, now: Stamp) -> Result<Option<EntityId>>
//@ yields Ok(list_id)
requires parsed.list_indent < u32::MAX,
ensures
    r is Ok && parsed.list_style is Some ==> r->Ok_0 is Some && joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, parsed.list_style->Some_0, parsed.list_indent as int, r->Ok_0->Some_0),
    r is Ok && parsed.list_style is None ==> r->Ok_0 is None && ended(*final(list_grouper), old(uow).made@, final(uow).made@),
//@ ret r
//@ rw String::new() => std_empty()
//@ end
//@ fn crates/document_io/src/use_cases/import_markdown_uc.rs import_parsed_elements
//@ from let list_id = if let Some(existing_id) = $c $a else $b;
//@ to let list_id = if let Some(existing_id) = $c $a else $b;
//@ rename import_markdown_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, list_style: &ListStyle, parsed_block: &ParsedBlock, doc_id: EntityId) -> Result<EntityId>
//@ yields Ok(list_id)
requires parsed_block.list_indent < u32::MAX,
ensures r is Ok ==> joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, *list_style, parsed_block.list_indent as int, r->Ok_0),
//@ ret r
//@ rw List { style: $s, indent: $i, ..List::default() } => std_plain_list($s, $i)
//@ end
//@ fn crates/document_io/src/use_cases/import_html_uc.rs ImportHtmlUseCase::execute
//@ from let list_id = if let Some(existing_id) = $c $a else $b;
//@ to let list_id = if let Some(existing_id) = $c $a else $b;
//@ rename import_html_list
//@ sig (uow: &mut Lists, list_grouper: &mut ListGrouper, list_style: &ListStyle, parsed_block: &ParsedBlock, doc_id: EntityId) -> Result<EntityId>
//@ yields Ok(list_id)
requires parsed_block.list_indent < u32::MAX,
ensures r is Ok ==> joined(*old(list_grouper), *final(list_grouper), old(uow).made@, final(uow).made@, *list_style, parsed_block.list_indent as int, r->Ok_0),
//@ ret r
//@ rw List { style: $s, indent: $i, ..List::default() } => std_plain_list($s, $i)
//@ end
}
fn main() {}
