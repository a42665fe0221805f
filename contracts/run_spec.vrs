// ---- specification: a run list as a partial function from byte offsets to formats
pub open spec fn covers(r: FormatRun, b: int) -> bool { r.byte_start <= b < r.byte_end }
pub open spec fn fmt_at(s: Seq<FormatRun>, b: int) -> Option<CharacterFormat>
    decreases s.len()
{
    if s.len() == 0 { None } else if covers(s.last(), b) { Some(s.last().format) } else { fmt_at(s.drop_last(), b) }
}
pub open spec fn wf(s: Seq<FormatRun>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).byte_start < s[i].byte_end
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).byte_end <= (#[trigger] s[j]).byte_start
}
pub open spec fn mergeable(x: FormatRun, y: FormatRun) -> bool { x.byte_end == y.byte_start && x.format == y.format }
pub open spec fn coalesced(s: Seq<FormatRun>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && j == i + 1 && j < s.len() ==> !mergeable(#[trigger] s[i], #[trigger] s[j])
}
pub open spec fn canonical(s: Seq<FormatRun>) -> bool { wf(s) && coalesced(s) }
pub open spec fn within(s: Seq<FormatRun>, lo: int, hi: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).byte_start && s[i].byte_end <= hi
}
/// both lists show the same format at every byte
pub open spec fn same(s: Seq<FormatRun>, t: Seq<FormatRun>) -> bool { forall|b: int| #[trigger] fmt_at(s, b) == fmt_at(t, b) }
pub open spec fn none_covers(s: Seq<FormatRun>, b: int) -> bool { forall|i: int| 0 <= i < s.len() ==> !covers(#[trigger] s[i], b) }

pub proof fn fmt_at_hit(s: Seq<FormatRun>, i: int, b: int)
    requires wf(s), 0 <= i < s.len(), covers(s[i], b),
    ensures fmt_at(s, b) == Some(s[i].format),
    decreases s.len(),
{
    if i < s.len() - 1 {
        assert(!covers(s.last(), b));
        fmt_at_hit(s.drop_last(), i, b);
    }
}
pub proof fn fmt_at_miss(s: Seq<FormatRun>, b: int)
    requires none_covers(s, b),
    ensures fmt_at(s, b) is None,
    decreases s.len(),
{
    if s.len() > 0 { assert(!covers(s[s.len() - 1], b)); fmt_at_miss(s.drop_last(), b); }
}
pub proof fn fmt_at_some(s: Seq<FormatRun>, b: int) -> (i: int)
    requires fmt_at(s, b) is Some,
    ensures 0 <= i < s.len(), covers(s[i], b), fmt_at(s, b) == Some(s[i].format),
    decreases s.len(),
{
    if covers(s.last(), b) { s.len() - 1 } else { fmt_at_some(s.drop_last(), b) }
}
pub proof fn fmt_at_cases(s: Seq<FormatRun>, b: int)
    requires wf(s),
    ensures (exists|i: int| 0 <= i < s.len() && covers(s[i], b) && fmt_at(s, b) == Some(#[trigger] s[i].format))
        || (none_covers(s, b) && fmt_at(s, b) is None),
{
    if exists|i: int| 0 <= i < s.len() && covers(#[trigger] s[i], b) {
        let i = choose|i: int| 0 <= i < s.len() && covers(#[trigger] s[i], b);
        fmt_at_hit(s, i, b);
    } else { fmt_at_miss(s, b); }
}
pub proof fn fmt_at_push(s: Seq<FormatRun>, r: FormatRun, b: int)
    ensures fmt_at(s.push(r), b) == if covers(r, b) { Some(r.format) } else { fmt_at(s, b) },
{
    assert(s.push(r).drop_last() =~= s);
}
/// below every run of t, the concatenation shows s; the rest shows t where t has a format
pub proof fn fmt_at_add(s: Seq<FormatRun>, t: Seq<FormatRun>, b: int)
    ensures fmt_at(s + t, b) == if fmt_at(t, b) is Some { fmt_at(t, b) } else { fmt_at(s, b) },
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); }
    else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        fmt_at_add(s, t.drop_last(), b);
    }
}
