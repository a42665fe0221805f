use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8; // TRUSTED: 64-bit target
pub struct Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub type EntityId = u64;
#[derive(Clone, Copy)]
pub struct Stamp { pub x: i64 }
//@ rwtype chrono::DateTime<chrono::Utc> => Stamp
//@ rwtype frontend::document::dtos::UpdateDocumentDto => UpdateDocumentDto
//@ rwtype RepositoryError => Error
//@ item crates/common/src/entities.rs TextDirection
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/common/src/entities.rs WrapMode
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/common/src/entities.rs ResourceType
//@ derive Clone, Copy, PartialEq, Eq, Structural
//@ item crates/common/src/entities.rs Document
//@ item crates/common/src/entities.rs Resource
//@ item crates/direct_access/src/document/dtos.rs DocumentDto
//@ item crates/direct_access/src/document/dtos.rs UpdateDocumentDto
//@ item crates/direct_access/src/resource/dtos.rs ResourceDto
//@ item crates/direct_access/src/resource/dtos.rs CreateResourceDto
#[verifier::external_body] // TRUSTED: String::clone
pub fn std_clone_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] // TRUSTED: From<&str> for String
pub fn std_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] // TRUSTED: comparing a String with a str
pub fn std_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] // TRUSTED: Vec<u64>::clone
pub fn std_clone_ids(v: &Vec<u64>) -> (r: Vec<u64>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn std_now() -> Stamp { unimplemented!() }
//@ rw dto.title.clone() => std_clone_string(&dto.title)
//@ rw title.into() => std_str(title)
//@ rw name.into() => std_str(name)
//@ rw mime_type.into() => std_str(mime_type)
//@ rw name.to_string() => std_str(name)
//@ rw dto.name.clone() => std_clone_string(&dto.name)
//@ rw dto.url.clone() => std_clone_string(&dto.url)
//@ rw dto.mime_type.clone() => std_clone_string(&dto.mime_type)
//@ rw dto.data_base64.clone() => std_clone_string(&dto.data_base64)
//@ rw dto.$f.clone() => dto.$f
// ---- what a document record says
pub struct Told { pub title: Seq<char>, pub dir: TextDirection, pub wrap: WrapMode, pub chars: i64, pub blocks: i64 }
pub struct Held { pub frames: Seq<u64>, pub resources: Seq<u64>, pub lists: Seq<u64>, pub tables: Seq<u64> }
pub struct Rec { pub id: u64, pub told: Told, pub held: Held }
pub open spec fn rec(d: Document) -> Rec { Rec { id: d.id, told: Told { title: d.title@, dir: d.text_direction, wrap: d.default_wrap_mode, chars: d.character_count, blocks: d.block_count }, held: Held { frames: d.frames@, resources: d.resources@, lists: d.lists@, tables: d.tables@ } } }
pub open spec fn rec_dto(d: DocumentDto) -> Rec { Rec { id: d.id, told: Told { title: d.title@, dir: d.text_direction, wrap: d.default_wrap_mode, chars: d.character_count, blocks: d.block_count }, held: Held { frames: d.frames@, resources: d.resources@, lists: d.lists@, tables: d.tables@ } } }
pub open spec fn told_up(d: UpdateDocumentDto) -> Told { Told { title: d.title@, dir: d.text_direction, wrap: d.default_wrap_mode, chars: d.character_count, blocks: d.block_count } }
pub type Docs = Map<u64, Rec>;
/// writing a record over m: what it tells is replaced, what the stored record holds stays
pub open spec fn put1(m: Docs, e: Rec) -> Docs { m.insert(e.id, if m.contains_key(e.id) { Rec { id: e.id, told: e.told, held: m[e.id].held } } else { e }) }
pub open spec fn recs(es: Seq<Document>) -> Seq<Rec> { es.map_values(|d: Document| rec(d)) }
pub open spec fn put_all(m: Docs, es: Seq<Rec>) -> Docs
    decreases es.len()
{ if es.len() == 0 { m } else { put1(put_all(m, es.drop_last()), es.last()) } }
/// every record is stored under its own number
pub open spec fn keyed(m: Docs) -> bool { forall|id: u64| #[trigger] m.contains_key(id) ==> m[id].id == id }
/// what was stored under the numbers of es
pub open spec fn was(m: Docs, es: Seq<Rec>, olds: Seq<Rec>) -> bool { olds.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> m.contains_key((#[trigger] es[i]).id) && olds[i] == m[es[i].id] }
pub open spec fn known(m: Docs, es: Seq<Rec>) -> bool { forall|i: int| 0 <= i < es.len() ==> m.contains_key((#[trigger] es[i]).id) }
pub open spec fn among(es: Seq<Rec>, id: u64) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).id == id }
pub proof fn put_frame(m: Docs, es: Seq<Rec>)
    requires known(m, es), keyed(m),
    ensures put_all(m, es).dom() == m.dom(), keyed(put_all(m, es)), forall|id: u64| #[trigger] m.contains_key(id) ==> put_all(m, es)[id].held == m[id].held && (!among(es, id) ==> put_all(m, es)[id] == m[id]),
    decreases es.len(),
{
    if es.len() > 0 {
        let d = es.drop_last(); assert forall|i: int| 0 <= i < d.len() implies m.contains_key((#[trigger] d[i]).id) by { assert(d[i] == es[i]); }
        put_frame(m, d); let p = put_all(m, d);
        assert(m.contains_key(es[es.len() - 1].id)); assert(p.dom().contains(es.last().id));
        assert(put_all(m, es).dom() =~= m.dom());
        assert forall|id: u64| #[trigger] m.contains_key(id) implies put_all(m, es)[id].held == m[id].held && (!among(es, id) ==> put_all(m, es)[id] == m[id]) by {
            if !among(es, id) { assert(es[es.len() - 1].id != id); assert(!among(d, id)) by { if among(d, id) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id == id; assert(es[i].id == id); } } }
        }
    }
}
/// writing back what was stored
pub proof fn put_back(m: Docs, es: Seq<Rec>, olds: Seq<Rec>, n: Docs)
    requires keyed(m), keyed(n), n.dom() == m.dom(), forall|id: u64| #[trigger] m.contains_key(id) ==> n[id].held == m[id].held, forall|i: int| 0 <= i < olds.len() ==> m.contains_key((#[trigger] olds[i]).id) && olds[i] == m[olds[i].id],
    ensures put_all(n, olds).dom() == m.dom(), forall|id: u64| #[trigger] m.contains_key(id) ==> put_all(n, olds)[id] == if among(olds, id) { m[id] } else { n[id] },
    decreases olds.len(),
{
    if olds.len() > 0 {
        let d = olds.drop_last(); assert forall|i: int| 0 <= i < d.len() implies m.contains_key((#[trigger] d[i]).id) && d[i] == m[d[i].id] by { assert(d[i] == olds[i]); }
        put_back(m, es, d, n); let p = put_all(n, d); let e = olds[olds.len() - 1];
        assert(p.dom().contains(e.id));
        assert(put_all(n, olds).dom() =~= m.dom());
        assert forall|id: u64| #[trigger] m.contains_key(id) implies put_all(n, olds)[id] == if among(olds, id) { m[id] } else { n[id] } by {
            assert(among(d, id) ==> among(olds, id)) by { if among(d, id) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id == id; assert(olds[i].id == id); } }
            if e.id == id { assert(among(olds, id)); assert(m.contains_key(e.id)); }
            else { assert(among(olds, id) ==> among(d, id)) by { if among(olds, id) { let i = choose|i: int| 0 <= i < olds.len() && (#[trigger] olds[i]).id == id; assert(d[i].id == id); } } }
        }
    }
}
/// undoing an update brings every record back
pub proof fn undone(m: Docs, es: Seq<Rec>, olds: Seq<Rec>)
    requires keyed(m), was(m, es, olds),
    ensures put_all(put_all(m, es), olds) == m,
{
    put_frame(m, es); let n = put_all(m, es);
    assert forall|i: int| 0 <= i < olds.len() implies m.contains_key((#[trigger] olds[i]).id) && olds[i] == m[olds[i].id] by { assert(m.contains_key(es[i].id)); }
    put_back(m, es, olds, n);
    assert forall|id: u64| #[trigger] m.contains_key(id) implies put_all(n, olds)[id] == m[id] by {
        if among(es, id) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).id == id; assert(m.contains_key(es[i].id)); assert(olds[i].id == id); }
    }
    assert(put_all(n, olds) =~= m);
}
// ---- records between their forms
impl Document {
    #[verifier::external_body] // TRUSTED: derived Clone
    pub fn clone(&self) -> (r: Document) ensures rec(r) == rec(*self) { unimplemented!() }
}
impl UpdateDocumentDto {
//@ fn crates/direct_access/src/document/dtos.rs From<DocumentDto> for UpdateDocumentDto::from
ensures r.id == dto.id, told_up(r) == rec_dto(dto).told,
//@ ret r
//@ end
}
impl DocumentDto {
//@ fn crates/direct_access/src/document/dtos.rs From<Document> for DocumentDto::from
ensures rec_dto(r) == rec(entity),
//@ ret r
//@ end
}
impl Document {
//@ fn crates/direct_access/src/document/dtos.rs From<&UpdateDocumentDto> for Document::from
ensures r.id == dto.id, rec(r).told == told_up(*dto),
//@ rw Default::default() => Vec::new()
//@ ret r
//@ end
}
// ---- the table of documents
pub struct DocMap { pub m: Ghost<Docs> }
impl DocMap {
    #[verifier::external_body] // TRUSTED: HashMap::get
    pub fn get(&self, id: &u64) -> (r: Option<&Document>) ensures r is Some <==> self.m@.contains_key(*id), r is Some ==> rec(*r->0) == self.m@[*id] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::insert
    pub fn insert(&mut self, id: u64, d: Document) ensures final(self).m@ == old(self).m@.insert(id, rec(d)) { unimplemented!() }
}
/// TRUSTED: the table of documents, behind its lock
pub struct DocTable { pub docs: DocMap }
impl DocTable {
//@ fn crates/common/src/direct_access/document/document_table.rs DocumentTable for DocumentHashMapTable::get
ensures r is Ok, r->Ok_0 is Some <==> self.docs.m@.contains_key(*id), r->Ok_0 is Some ==> rec(r->Ok_0->0) == self.docs.m@[*id],
//@ ret r
//@ rw self.store.documents.read().unwrap().get(id).cloned() => std_cloned(self.docs.get(id))
//@ end
//@ fn crates/common/src/direct_access/document/document_table.rs DocumentTable for DocumentHashMapTable::update_multi
ensures r is Ok, final(self).docs.m@ == put_all(old(self).docs.m@, recs(entities@)), r->Ok_0@.len() == entities@.len(),
//@ ret r
//@ rwstmt let mut document_map = self.store.documents.write().unwrap(); =>
//@ rw document_map.get($x) => self.docs.get($x)
//@ rw document_map.insert($x, $y) => self.docs.insert($x, $y)
//@ rw existing.$f.clone() => std_clone_ids(&existing.$f)
//@ loop 0 it
invariant
    it.seq().len() == entities@.len(), forall|i: int| 0 <= i < entities@.len() ==> rec(*#[trigger] it.seq()[i]) == rec(entities@[i]), self.docs.m@ == put_all(old(self).docs.m@, recs(entities@).take(it.index@ as int)), result@.len() == it.index@,
//@ loop 0 top
assert(rec(*it.seq()[it.index@ as int]) == recs(entities@)[it.index@ as int]); assert(recs(entities@).take(it.index@ + 1).drop_last() =~= recs(entities@).take(it.index@ as int));
//@ loop 0 after
assert(recs(entities@).take(entities@.len() as int) =~= recs(entities@));
//@ end
}
pub fn std_cloned(d: Option<&Document>) -> (r: Option<Document>) ensures r is Some <==> d is Some, r is Some ==> rec(r->0) == rec(*d->0) { match d { Some(x) => Some(x.clone()), None => None } }

// ---- the command that changes records and can be undone
/// TRUSTED: the unit of work a factory makes passes on to the table of documents; a transaction that succeeds is kept
pub struct UndoableUpdateUseCase { pub uow_factory: DocTable, pub undo_stack: Vec<Vec<Document>>, pub redo_stack: Vec<Vec<Document>> }
pub fn std_ids(es: &[Document]) -> (r: Vec<u64>) ensures r@.len() == es@.len(), forall|i: int| 0 <= i < es@.len() ==> (#[trigger] r@[i]) == es@[i].id
{ let mut v = Vec::new(); for i in 0..es.len() invariant v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]) == es@[j].id { v.push(es[i].id); } v }
impl DocTable {
    /// the records of ids that are stored, in order
    pub fn get_known(&self, ids: &Vec<u64>) -> (r: Result<Vec<Document>>)
        ensures r is Ok, (forall|i: int| 0 <= i < ids@.len() ==> self.docs.m@.contains_key(#[trigger] ids@[i])) ==> r->Ok_0@.len() == ids@.len() && forall|i: int| 0 <= i < ids@.len() ==> rec(#[trigger] r->Ok_0@[i]) == self.docs.m@[ids@[i]],
    {
        let mut v: Vec<Document> = Vec::new();
        for i in 0..ids.len()
            invariant (forall|j: int| 0 <= j < ids@.len() ==> self.docs.m@.contains_key(#[trigger] ids@[j])) ==> v@.len() == i && forall|j: int| 0 <= j < i ==> rec(#[trigger] v@[j]) == self.docs.m@[ids@[j]],
        { assert(ids@[i as int] == ids[i as int]); if let Some(d) = self.docs.get(&ids[i]) { v.push(d.clone()); } }
        Ok(v)
    }
}
pub open spec fn same(a: UndoableUpdateUseCase, b: UndoableUpdateUseCase) -> bool { a.docs() == b.docs() && a.undo_stack@ == b.undo_stack@ && a.redo_stack@ == b.redo_stack@ }
/// writing es over m, having kept what was stored under their numbers, can be taken back
pub proof fn swapped(m: Docs, es: Seq<Document>, ids: Seq<u64>, olds: Seq<Document>)
    requires keyed(m), known(m, recs(es)), ids.len() == es.len(), forall|i: int| 0 <= i < es.len() ==> (#[trigger] ids[i]) == es[i].id,
        (forall|i: int| 0 <= i < ids.len() ==> m.contains_key(#[trigger] ids[i])) ==> olds.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> rec(#[trigger] olds[i]) == m[ids[i]],
    ensures put_all(put_all(m, recs(es)), recs(olds)) == m, known(put_all(m, recs(es)), recs(olds)), keyed(put_all(m, recs(es))), put_all(m, recs(es)).dom() == m.dom(),
{
    assert forall|i: int| 0 <= i < ids.len() implies m.contains_key(#[trigger] ids[i]) by { assert(recs(es)[i].id == es[i].id); assert(m.contains_key(recs(es)[i].id)); }
    assert forall|i: int| 0 <= i < es.len() implies m.contains_key((#[trigger] recs(es)[i]).id) && recs(olds)[i] == m[recs(es)[i].id] by { assert(rec(olds[i]) == m[ids[i]]); }
    undone(m, recs(es), recs(olds)); put_frame(m, recs(es)); let n = put_all(m, recs(es));
    assert forall|i: int| 0 <= i < olds.len() implies n.contains_key((#[trigger] recs(olds)[i]).id) by { assert(m.contains_key(recs(es)[i].id)); assert(n.dom().contains(recs(olds)[i].id)); }
}
//@ rwtype F::Entity => Document
//@ rwstmt let mut uow = self.uow_factory.create(); =>
//@ rwstmt uow.begin_transaction()?; =>
//@ rwstmt uow.commit()?; =>
//@ rw uow.get(&$e.id())? => self.uow_factory.get(&$e.id)?
//@ rw $v.iter().map(|e| e.id()).collect() => std_ids(&$v)
//@ rw uow.get_multi($i)?.into_iter().flatten().collect() => self.uow_factory.get_known($i)?
//@ rw uow.update_multi($e)? => self.uow_factory.update_multi($e)?
//@ rw $s.push_back($e) => $s.push($e)
//@ rw $s.pop_back() => $s.pop()
//@ rw Err(anyhow::anyhow!($x)) => Err(Error {})
impl UndoableUpdateUseCase {
    pub open spec fn docs(&self) -> Docs { self.uow_factory.docs.m@ }
    /// undoing from here leads from `now` to `then`
    pub open spec fn undoes_to(&self, then: Docs) -> bool { self.undo_stack@.len() > 0 && put_all(self.docs(), recs(self.undo_stack@.last()@)) == then && known(self.docs(), recs(self.undo_stack@.last()@)) }
    pub open spec fn redoes_to(&self, then: Docs) -> bool { self.redo_stack@.len() > 0 && put_all(self.docs(), recs(self.redo_stack@.last()@)) == then && known(self.docs(), recs(self.redo_stack@.last()@)) }
//@ fn crates/common/src/direct_access/use_cases/update.rs UndoableUpdateUseCase::execute_multi
requires keyed(old(self).docs()),
ensures
    r is Ok ==> known(old(self).docs(), recs(entities@)) && final(self).docs() == put_all(old(self).docs(), recs(entities@)) && final(self).undoes_to(old(self).docs()) && final(self).redo_stack@.len() == 0,
    r is Err ==> same(*final(self), *old(self)),
    known(old(self).docs(), recs(entities@)) ==> r is Ok,
    keyed(final(self).docs()),
//@ ret r
//@ rw std_ids(&entities) => std_ids(entities)
//@ loop 0 it
invariant keyed(old(self).docs()), *self == *old(self), it.seq().len() == entities@.len(), forall|i: int| 0 <= i < entities@.len() ==> #[trigger] it.seq()[i] == entities@[i], forall|i: int| 0 <= i < it.index@ ==> self.docs().contains_key((#[trigger] entities@[i]).id),
//@ loop 0 top
assert(*it.seq()[it.index@ as int] == entities@[it.index@ as int]); assert(known(self.docs(), recs(entities@)) ==> self.docs().contains_key(recs(entities@)[it.index@ as int].id)); assert(recs(entities@)[it.index@ as int].id == entities@[it.index@ as int].id);
//@ loop 0 after
assert(known(self.docs(), recs(entities@)));
//@ behind let old_entities: $t = $x;
swapped(self.docs(), entities@, ids@, old_entities@);
//@ end
//@ fn crates/common/src/direct_access/use_cases/update.rs UndoRedoCommand for UndoableUpdateUseCase::undo
requires keyed(old(self).docs()), old(self).undo_stack@.len() > 0 ==> known(old(self).docs(), recs(old(self).undo_stack@.last()@)),
ensures
    r is Ok, old(self).undo_stack@.len() == 0 ==> same(*final(self), *old(self)),
    forall|m: Docs| #[trigger] old(self).undoes_to(m) ==> final(self).docs() == m,
    old(self).undo_stack@.len() > 0 ==> final(self).redoes_to(old(self).docs()),
    keyed(final(self).docs()),
//@ ret r
//@ top
//raw
let ghost was_docs = self.docs();
//@ behind let current: $t = $x;
swapped(was_docs, last_entities@, ids@, current@);
//@ end
//@ fn crates/common/src/direct_access/use_cases/update.rs UndoRedoCommand for UndoableUpdateUseCase::redo
requires keyed(old(self).docs()), old(self).redo_stack@.len() > 0 ==> known(old(self).docs(), recs(old(self).redo_stack@.last()@)),
ensures
    r is Ok, old(self).redo_stack@.len() == 0 ==> same(*final(self), *old(self)),
    forall|m: Docs| #[trigger] old(self).redoes_to(m) ==> final(self).docs() == m,
    old(self).redo_stack@.len() > 0 ==> final(self).undoes_to(old(self).docs()),
    keyed(final(self).docs()),
//@ ret r
//@ top
//raw
let ghost was_docs = self.docs();
//@ behind let current: $t = $x;
swapped(was_docs, entities@, ids@, current@);
//@ end
}

// ---- resources
pub struct Res { pub name: Seq<char>, pub mime: Seq<char>, pub kind: ResourceType, pub code: Seq<char> }
pub type Store = Map<u64, Res>;
pub uninterp spec fn code(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] // TRUSTED: base64 encoding loses nothing
pub proof fn code_one(a: Seq<u8>, b: Seq<u8>) ensures code(a) == code(b) ==> a == b { }
#[verifier::external_body] // TRUSTED: base64's encode
pub fn std_encode(b: &[u8]) -> (r: String) ensures r@ == code(b@) { unimplemented!() }
#[verifier::external_body] // TRUSTED: base64's decode undoes encode
pub fn std_decode(s: &String) -> (r: Result<Vec<u8>>) ensures decodes(s@) ==> r is Ok && code(r->Ok_0@) == s@ { unimplemented!() }
pub open spec fn decodes(s: Seq<char>) -> bool { exists|b: Seq<u8>| #[trigger] code(b) == s }
pub open spec fn named(m: Store, name: Seq<char>, id: u64) -> bool { m.contains_key(id) && m[id].name == name }
/// the last one added under a name (numbers grow)
pub open spec fn last_named(m: Store, name: Seq<char>, id: u64) -> bool { named(m, name, id) && forall|o: u64| #[trigger] named(m, name, o) ==> o <= id }
pub open spec fn coded(m: Store) -> bool { forall|id: u64| #[trigger] m.contains_key(id) ==> decodes(m[id].code) }
pub open spec fn res_dto(r: ResourceDto) -> Res { Res { name: r.name@, mime: r.mime_type@, kind: r.resource_type, code: r.data_base64@ } }
pub open spec fn res_new(r: CreateResourceDto) -> Res { Res { name: r.name@, mime: r.mime_type@, kind: r.resource_type, code: r.data_base64@ } }
pub open spec fn res_ent(r: Resource) -> Res { Res { name: r.name@, mime: r.mime_type@, kind: r.resource_type, code: r.data_base64@ } }
impl Resource {
//@ fn crates/direct_access/src/resource/dtos.rs From<&CreateResourceDto> for Resource::from
ensures res_ent(r) == res_new(*dto),
//@ ret r
//@ end
}
impl ResourceDto {
//@ fn crates/direct_access/src/resource/dtos.rs From<Resource> for ResourceDto::from
ensures res_dto(r) == res_ent(entity), r.id == entity.id,
//@ ret r
//@ end
}
pub struct Cache { pub m: Ghost<Map<Seq<char>, u64>> }
impl Cache {
    #[verifier::external_body] // TRUSTED: HashMap::get
    pub fn get(&self, n: &str) -> (r: Option<&u64>) ensures r is Some <==> self.m@.contains_key(n@), r is Some ==> *r->0 == self.m@[n@] { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::insert
    pub fn insert(&mut self, n: String, id: u64) ensures final(self).m@ == old(self).m@.insert(n@, id) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::remove
    pub fn remove(&mut self, n: &str) ensures final(self).m@ == old(self).m@.remove(n@) { unimplemented!() }
    #[verifier::external_body] // TRUSTED: HashMap::clear
    pub fn clear(&mut self) ensures final(self).m@ == Map::<Seq<char>, u64>::empty() { unimplemented!() }
}
/// TRUSTED: the database behind the document; next: numbers from it on were never handed out
pub struct Db { pub docs: Ghost<Docs>, pub res: Ghost<Store>, pub next: Ghost<int> }
#[verifier::external_body]
pub struct Blocks { x: u8 }
impl Db {
    #[verifier::external_body] // TRUSTED: creating an entity stores it under a fresh number (Resource::from above); or fails and does nothing
    pub fn create_resource(&mut self, d: &CreateResourceDto) -> (r: Result<ResourceDto>)
        ensures
            final(self).docs == old(self).docs || final(self).docs@.dom() == old(self).docs@.dom() && forall|id: u64| #[trigger] old(self).docs@.contains_key(id) ==> final(self).docs@[id].told == old(self).docs@[id].told,
            r is Ok ==> r->Ok_0.id >= old(self).next@ && final(self).next@ > r->Ok_0.id && final(self).res@ == old(self).res@.insert(r->Ok_0.id, res_new(*d)),
            r is Err ==> final(self).res == old(self).res && final(self).next == old(self).next,
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading an entity
    pub fn get_resource(&self, id: &u64) -> (r: Result<Option<ResourceDto>>)
        ensures r is Ok ==> (r->Ok_0 is Some <==> self.res@.contains_key(*id)) && (r->Ok_0 is Some ==> res_dto(r->Ok_0->0) == self.res@[*id] && r->Ok_0->0.id == *id),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading all entities
    pub fn get_all_resource(&self) -> (r: Result<Vec<ResourceDto>>)
        ensures r is Ok ==> (forall|i: int| 0 <= i < r->Ok_0@.len() ==> self.res@.contains_key((#[trigger] r->Ok_0@[i]).id) && self.res@[r->Ok_0@[i].id] == res_dto(r->Ok_0@[i])) && forall|id: u64| #[trigger] self.res@.contains_key(id) ==> exists|i: int| 0 <= i < r->Ok_0@.len() && (#[trigger] r->Ok_0@[i]).id == id,
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: reading an entity (DocTable::get, DocumentDto::from above)
    pub fn get_document(&self, id: &u64) -> (r: Result<Option<DocumentDto>>)
        ensures r is Ok, r->Ok_0 is Some <==> self.docs@.contains_key(*id), r->Ok_0 is Some ==> rec_dto(r->Ok_0->0) == self.docs@[*id],
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: the update command of one record, run and put on the stack (Document::from, UndoableUpdateUseCase::execute_multi above); or it fails and does nothing
    pub fn update_document(&mut self, d: &UpdateDocumentDto) -> (r: Result<DocumentDto>)
        ensures final(self).res == old(self).res, final(self).next == old(self).next, r is Err ==> final(self).docs == old(self).docs,
            r is Ok ==> old(self).docs@.contains_key(d.id) && final(self).docs@ == old(self).docs@.insert(d.id, Rec { id: d.id, told: told_up(*d), held: old(self).docs@[d.id].held }),
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: any command may be undone or redone; numbers are never handed out twice
    pub fn step(&mut self) -> (r: Result<()>) ensures final(self).next@ >= old(self).next@, coded(old(self).res@) ==> coded(final(self).res@), below(final(self).res@, final(self).next@) { unimplemented!() }
}
pub open spec fn below(m: Store, n: int) -> bool { forall|id: u64| #[trigger] m.contains_key(id) ==> id < n }
#[verifier::external_body]
pub struct Events { x: u8 }
/// TRUSTED: the parts of a document these functions use
pub struct Inner { pub db: Db, pub resource_cache: Cache, pub document_id: u64, pub modified: bool, pub rest: Events }
impl Inner {
    /// what the cache names is the last one added, or nothing
    pub open spec fn ok(&self) -> bool {
        &&& coded(self.db.res@) && below(self.db.res@, self.db.next@)
        &&& forall|n: Seq<char>| #[trigger] self.resource_cache.m@.contains_key(n) ==> self.resource_cache.m@[n] < self.db.next@ && (self.db.res@.contains_key(self.resource_cache.m@[n]) ==> last_named(self.db.res@, n, self.resource_cache.m@[n]))
    }
    pub open spec fn told(&self) -> Told { self.db.docs@[self.document_id].told }
    pub open spec fn here(&self) -> bool { self.db.docs@.contains_key(self.document_id) && keyed(self.db.docs@) }
    #[verifier::external_body] // TRUSTED: does not touch database and resource cache
    pub fn other(&mut self) ensures final(self).db == old(self).db, final(self).resource_cache == old(self).resource_cache, final(self).document_id == old(self).document_id { unimplemented!() }
    #[verifier::external_body]
    pub fn blocks(&self) -> (r: Blocks) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_queued_events(&mut self) -> (r: Events) ensures final(self).db == old(self).db, final(self).resource_cache == old(self).resource_cache, final(self).document_id == old(self).document_id { unimplemented!() }
}
/// a resource was added under a name
pub proof fn added(a: Inner, b: Inner, id: u64, n: Seq<char>, r: Res)
    requires a.ok(), id >= a.db.next@, b.db.next@ > id, r.name == n, decodes(r.code), b.db.res@ == a.db.res@.insert(id, r), b.resource_cache.m@ == a.resource_cache.m@.insert(n, id),
    ensures b.ok(), last_named(b.db.res@, n, id), !a.db.res@.contains_key(id),
{
    let m = b.db.res@; let o = a.db.res@;
    assert forall|k: u64| #[trigger] m.contains_key(k) implies k < b.db.next@ && decodes(m[k].code) by { if k != id { assert(o.contains_key(k)); } }
    assert forall|x: u64| #[trigger] named(m, n, x) implies x <= id by { if x != id { assert(o.contains_key(x)); } }
    assert forall|q: Seq<char>| #[trigger] b.resource_cache.m@.contains_key(q) implies b.resource_cache.m@[q] < b.db.next@ && (m.contains_key(b.resource_cache.m@[q]) ==> last_named(m, q, b.resource_cache.m@[q])) by {
        if q != n {
            assert(a.resource_cache.m@.contains_key(q)); let c = a.resource_cache.m@[q];
            if m.contains_key(c) { assert(o.contains_key(c)); assert forall|x: u64| #[trigger] named(m, q, x) implies x <= c by { if x == id { assert(m[id].name == n); } assert(named(o, q, x)); } assert(named(m, q, c)); }
        }
    }
}
/// the largest of those named n is the last one added
pub proof fn largest(m: Store, v: Seq<ResourceDto>, n: Seq<char>, r: ResourceDto)
    requires r.name@ == n, exists|i: int| 0 <= i < v.len() && r == #[trigger] v[i], forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]).name@ == n ==> v[i].id <= r.id,
        forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).id) && m[v[i].id] == res_dto(v[i]), forall|id: u64| #[trigger] m.contains_key(id) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == id,
    ensures last_named(m, n, r.id), m[r.id].code == r.data_base64@,
{
    assert forall|x: u64| #[trigger] named(m, n, x) implies x <= r.id by { assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == x; assert(m[v[i].id] == res_dto(v[i])); assert(v[i].name@ == n); }
}
pub struct InnerCell { pub c: Inner }
impl InnerCell {
    pub fn read(&self) -> (r: &Inner) ensures *r == self.c { &self.c }
    pub fn lock(&mut self) -> (r: &mut Inner) ensures *r == old(self).c, *final(r) == final(self).c { &mut self.c }
}
pub fn std_default_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
/// the largest entry of those a test picks
pub fn std_filter_max<'a>(v: &'a Vec<ResourceDto>, name: &str, p: impl Fn(&ResourceDto) -> bool, k: impl Fn(&ResourceDto) -> u64) -> (r: Option<&'a ResourceDto>)
    requires forall|x: &ResourceDto| #[trigger] p.requires((x,)), forall|x: &ResourceDto| #[trigger] k.requires((x,)), forall|x: &ResourceDto, b: bool| #[trigger] p.ensures((x,), b) ==> b == (x.name@ == name@), forall|x: &ResourceDto, n: u64| #[trigger] k.ensures((x,), n) ==> n == x.id,
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).name@ != name@,
        r is Some ==> r->0.name@ == name@ && (exists|i: int| 0 <= i < v@.len() && *r->0 == #[trigger] v@[i]) && forall|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).name@ == name@ ==> v@[i].id <= r->0.id,
{
    let mut best: Option<usize> = None;
    for i in 0..v.len()
        invariant
            forall|x: &ResourceDto| #[trigger] p.requires((x,)), forall|x: &ResourceDto| #[trigger] k.requires((x,)), forall|x: &ResourceDto, b: bool| #[trigger] p.ensures((x,), b) ==> b == (x.name@ == name@), forall|x: &ResourceDto, n: u64| #[trigger] k.ensures((x,), n) ==> n == x.id,
            best is None ==> forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).name@ != name@,
            best is Some ==> best->0 < i && v@[best->0 as int].name@ == name@ && forall|j: int| 0 <= j < i && (#[trigger] v@[j]).name@ == name@ ==> v@[j].id <= v@[best->0 as int].id,
    {
        if p(&v[i]) { match best { None => { best = Some(i); } Some(b) => { if k(&v[b]) <= k(&v[i]) { best = Some(i); } } } }
    }
    match best { Some(b) => Some(&v[b]), None => None }
}
pub fn std_copied(o: Option<&u64>) -> (r: Option<u64>) ensures r is Some <==> o is Some, r is Some ==> r->0 == *o->0 { match o { Some(x) => Some(*x), None => None } }
pub struct TextDocument { pub inner: InnerCell }
//@ rw document_commands::get_document(&inner.ctx, &inner.document_id) => inner.db.get_document(&inner.document_id)
//@ rw $x?.ok_or_else(|| $e)? => (match $x? { Some(d) => d, None => { return Err(Error {}); } })
//@ rw $x.ok().flatten().map(|d| $e).unwrap_or_default() => (match $x { Ok(Some(d)) => $e, _ => std_default_string() })
//@ rw $x.ok().flatten().map(|d| $e).unwrap_or($f) => (match $x { Ok(Some(d)) => $e, _ => $f })
//@ rw doc.into() => UpdateDocumentDto::from(doc)
//@ rw document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)? => inner.db.update_document(&update)?
//@ rw resource_commands::create_resource(&inner.ctx, $s, &dto, $d, $i)? => inner.db.create_resource(&dto)?
//@ rw resource_commands::get_resource(&inner.ctx, &id)? => inner.db.get_resource(&id)?
//@ rw resource_commands::get_all_resource(&inner.ctx)? => inner.db.get_all_resource()?
//@ rw BASE64.encode(data) => std_encode(data)
//@ rw BASE64.decode(&r.data_base64)? => std_decode(&r.data_base64)?
impl TextDocument {
//@ fn crates/public_api/src/document.rs TextDocument::title
requires self.inner.c.here(),
ensures r@ == self.inner.c.told().title,
//@ ret r
//@ rwstmt let inner = self.inner.lock(); => let inner = self.inner.read();
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::text_direction
requires self.inner.c.here(),
ensures r == self.inner.c.told().dir,
//@ ret r
//@ rwstmt let inner = self.inner.lock(); => let inner = self.inner.read();
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::default_wrap_mode
requires self.inner.c.here(),
ensures r == self.inner.c.told().wrap,
//@ ret r
//@ rwstmt let inner = self.inner.lock(); => let inner = self.inner.read();
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::set_title
//@ recv &mut self
requires old(self).inner.c.here(),
ensures
    r is Ok ==> final(self).inner.c.here() && final(self).inner.c.told() == (Told { title: title@, ..old(self).inner.c.told() }) && final(self).inner.c.db.docs@ == old(self).inner.c.db.docs@.insert(old(self).inner.c.document_id, final(self).inner.c.db.docs@[old(self).inner.c.document_id]) && final(self).inner.c.db.docs@[old(self).inner.c.document_id].held == old(self).inner.c.db.docs@[old(self).inner.c.document_id].held,
    r is Err ==> final(self).inner.c.db.docs == old(self).inner.c.db.docs,
    final(self).inner.c.db.res == old(self).inner.c.db.res, final(self).inner.c.resource_cache == old(self).inner.c.resource_cache, final(self).inner.c.document_id == old(self).inner.c.document_id,
//@ ret r
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::set_text_direction
//@ recv &mut self
requires old(self).inner.c.here(),
ensures
    r is Ok ==> final(self).inner.c.here() && final(self).inner.c.told() == (Told { dir: direction, ..old(self).inner.c.told() }) && final(self).inner.c.db.docs@ == old(self).inner.c.db.docs@.insert(old(self).inner.c.document_id, final(self).inner.c.db.docs@[old(self).inner.c.document_id]) && final(self).inner.c.db.docs@[old(self).inner.c.document_id].held == old(self).inner.c.db.docs@[old(self).inner.c.document_id].held,
    r is Err ==> final(self).inner.c.db.docs == old(self).inner.c.db.docs,
    final(self).inner.c.db.res == old(self).inner.c.db.res, final(self).inner.c.resource_cache == old(self).inner.c.resource_cache, final(self).inner.c.document_id == old(self).inner.c.document_id,
//@ ret r
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::set_default_wrap_mode
//@ recv &mut self
requires old(self).inner.c.here(),
ensures
    r is Ok ==> final(self).inner.c.here() && final(self).inner.c.told() == (Told { wrap: mode, ..old(self).inner.c.told() }) && final(self).inner.c.db.docs@ == old(self).inner.c.db.docs@.insert(old(self).inner.c.document_id, final(self).inner.c.db.docs@[old(self).inner.c.document_id]) && final(self).inner.c.db.docs@[old(self).inner.c.document_id].held == old(self).inner.c.db.docs@[old(self).inner.c.document_id].held,
    r is Err ==> final(self).inner.c.db.docs == old(self).inner.c.db.docs,
    final(self).inner.c.db.res == old(self).inner.c.db.res, final(self).inner.c.resource_cache == old(self).inner.c.resource_cache, final(self).inner.c.document_id == old(self).inner.c.document_id,
//@ ret r
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::add_resource
//@ recv &mut self
requires old(self).inner.c.ok(),
ensures
    final(self).inner.c.ok(),
    r is Ok ==> exists|id: u64| #[trigger] last_named(final(self).inner.c.db.res@, name@, id) && !old(self).inner.c.db.res@.contains_key(id) && final(self).inner.c.db.res@ == old(self).inner.c.db.res@.insert(id, Res { name: name@, mime: mime_type@, kind: resource_type, code: code(data@) }),
    r is Err ==> final(self).inner.c.db.res == old(self).inner.c.db.res,
//@ ret r
//@ top
//raw let ghost a = self.inner.c;
//@ ahead Ok(())
//raw proof { assert(code(data@) == dto.data_base64@); added(a, *inner, created.id, name@, res_new(dto)); }
//@ rw Default::default() => std_now()
//@ rw frontend::resource::dtos::CreateResourceDto { $f } => CreateResourceDto { $f }
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::resource
//@ recv &mut self
requires old(self).inner.c.ok(),
ensures
    final(self).inner.c.ok(), final(self).inner.c.db == old(self).inner.c.db,
    r is Ok && r->Ok_0 is None ==> forall|id: u64| !#[trigger] named(old(self).inner.c.db.res@, name@, id),
    r is Ok && r->Ok_0 is Some ==> exists|id: u64| #[trigger] last_named(old(self).inner.c.db.res@, name@, id) && old(self).inner.c.db.res@[id].code == code(r->Ok_0->0@),
//@ ret r
//@ rw $v.iter().filter(|r| $c).max_by_key(|r| $k) => std_filter_max(&$v, name, closure« -> (b: bool) ensures b == (r.name@ == name@)»(|r: &ResourceDto| $c), closure« -> (n: u64) ensures n == r.id»(|r: &ResourceDto| $k))
//@ before insert 0
//raw proof { largest(inner.db.res@, all@, name@, *r); }
//@ rw r.name == name => std_eq(&r.name, name)
//@ rw if let Some(&id) = $x { $b } => if let Some(id) = std_copied($x) { $b }
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::undo
//@ recv &mut self
requires old(self).inner.c.ok(),
ensures final(self).inner.c.ok(), final(self).inner.c.resource_cache.m@ == Map::<Seq<char>, u64>::empty(), final(self).inner.c.document_id == old(self).inner.c.document_id,
//@ ret r
//@ rw capture_block_state(&inner) => inner.blocks()
//@ rw undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id)) => inner.db.step()
//@ rw emit_undo_redo_change_events(&mut inner, &before) => inner.other()
//@ rw inner.invalidate_text_cache() => inner.other()
//@ rw inner.rehighlight_all() => inner.other()
//@ rw inner.check_block_count_changed() => inner.other()
//@ rw inner.check_flow_changed() => inner.other()
//@ rw inner.queue_event($e) => inner.other()
//@ rw undo_redo_commands::can_undo($e) => false
//@ rw undo_redo_commands::can_redo($e) => false
//@ rwstmt crate::inner::dispatch_queued_events(queued); =>
//@ end
//@ fn crates/public_api/src/document.rs TextDocument::redo
//@ recv &mut self
requires old(self).inner.c.ok(),
ensures final(self).inner.c.ok(), final(self).inner.c.resource_cache.m@ == Map::<Seq<char>, u64>::empty(), final(self).inner.c.document_id == old(self).inner.c.document_id,
//@ ret r
//@ rw capture_block_state(&inner) => inner.blocks()
//@ rw undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id)) => inner.db.step()
//@ rw emit_undo_redo_change_events(&mut inner, &before) => inner.other()
//@ rw inner.invalidate_text_cache() => inner.other()
//@ rw inner.rehighlight_all() => inner.other()
//@ rw inner.check_block_count_changed() => inner.other()
//@ rw inner.check_flow_changed() => inner.other()
//@ rw inner.queue_event($e) => inner.other()
//@ rw undo_redo_commands::can_undo($e) => false
//@ rw undo_redo_commands::can_redo($e) => false
//@ rwstmt crate::inner::dispatch_queued_events(queued); =>
//@ end
}
}
fn main() {}
