// ---- joining neighbouring runs
pub proof fn within_of_same(s: Seq<FormatRun>, t: Seq<FormatRun>, lo: int, hi: int)
    requires wf(s), wf(t), same(s, t), within(t, lo, hi),
    ensures within(s, lo, hi),
{
    assert forall|i: int| 0 <= i < s.len() implies lo <= (#[trigger] s[i]).byte_start && s[i].byte_end <= hi by {
        fmt_at_hit(s, i, s[i].byte_start as int);
        let k = fmt_at_some(t, s[i].byte_start as int);
        fmt_at_hit(s, i, s[i].byte_end - 1);
        let m = fmt_at_some(t, s[i].byte_end - 1);
    }
}
/// one step of coalescing that extends the last written run
pub proof fn coalesce_extend(a: Seq<FormatRun>, m: Seq<FormatRun>, o: Seq<FormatRun>, rr: FormatRun)
    requires canonical(a), a.len() > 0, m.len() == a.len(), m.drop_last() == a.drop_last(), same(a, o), rr.byte_start < rr.byte_end,
        mergeable(a.last(), rr), m.last().byte_start == a.last().byte_start, m.last().byte_end == rr.byte_end, m.last().format == a.last().format,
    ensures canonical(m), same(m, o.push(rr)),
{
    assert forall|i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] == a[i] by { assert(m[i] == m.drop_last()[i]); assert(a[i] == a.drop_last()[i]); }
    assert(wf(m));
    assert(coalesced(m)) by {
        assert forall|i: int, j: int| 0 <= i < m.len() && j == i + 1 && j < m.len() implies !mergeable(#[trigger] m[i], #[trigger] m[j]) by { assert(!mergeable(a[i], a[j])); }
    }
    assert forall|b: int| #[trigger] fmt_at(m, b) == fmt_at(o.push(rr), b) by {
        fmt_at_push(o, rr, b);
        assert(fmt_at(a, b) == fmt_at(o, b));
    }
}
pub proof fn coalesce_push(a: Seq<FormatRun>, o: Seq<FormatRun>, rr: FormatRun)
    requires canonical(a), a.len() > 0, same(a, o), rr.byte_start < rr.byte_end, a.last().byte_end <= rr.byte_start, !mergeable(a.last(), rr),
    ensures canonical(a.push(rr)), same(a.push(rr), o.push(rr)),
{
    let m = a.push(rr);
    assert forall|b: int| #[trigger] fmt_at(m, b) == fmt_at(o.push(rr), b) by {
        fmt_at_push(o, rr, b);
        fmt_at_push(a, rr, b);
        assert(fmt_at(a, b) == fmt_at(o, b));
    }
    assert(wf(m)) by {
        assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).byte_end <= (#[trigger] m[j]).byte_start by {
            if j == a.len() && i < a.len() - 1 { assert(a[i].byte_end <= a[a.len() - 1].byte_start); }
        }
    }
}

// ---- the code
//@ fn crates/common/src/format_runs.rs coalesce_in_place
requires wf(old(runs)@),
ensures canonical(final(runs)@), same(final(runs)@, old(runs)@),
//@ loop 0 it
invariant
    write < runs.len(),
    write <= it.index@,
    runs.len() == old(runs)@.len(),
    wf(old(runs)@),
    canonical(runs@.take(write + 1)),
    same(runs@.take(write + 1), old(runs)@.take(it.index@ + 1)),
    forall|i: int| it.index@ < i < runs.len() ==> runs@[i] == old(runs)@[i],
    runs@[write as int].byte_end == old(runs)@[it.index@].byte_end,
//@ loop 0 top
//raw
let ghost before = runs@;
let ghost w0 = write as int;
let ghost rr = old(runs)@[read as int];
assert(runs@[read as int] == rr);
assert(old(runs)@.take(read + 1) =~= old(runs)@.take(read as int).push(rr));
//@ loop 0 bottom
let a = before.take(w0 + 1);
let m = runs@.take(write + 1);
if write == w0 {
    assert(m.drop_last() =~= a.drop_last());
    coalesce_extend(a, m, old(runs)@.take(read as int), rr);
} else {
    assert(write == w0 + 1);
    assert(m =~= a.push(rr));
    coalesce_push(a, old(runs)@.take(read as int), rr);
}
//@ loop 0 before
assert(runs@.take(1) =~= old(runs)@.take(1));
//@ loop 0 after
assert(old(runs)@.take(old(runs)@.len() as int) =~= old(runs)@);
//@ end
