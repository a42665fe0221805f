//@ use run_spec.vrs
/// the canonical list of a format function is unique: two canonical lists that show the same
/// formats are the same list
pub proof fn canonical_unique(s: Seq<FormatRun>, t: Seq<FormatRun>)
    requires canonical(s), canonical(t), same(s, t),
    ensures s == t,
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() > 0 { fmt_at_hit(t, 0, t[0].byte_start as int); assert(fmt_at(s, t[0].byte_start as int) is None); }
        assert(s =~= t);
    } else if t.len() == 0 {
        fmt_at_hit(s, 0, s[0].byte_start as int);
        assert(fmt_at(t, s[0].byte_start as int) is None);
    } else {
        let (x, y) = (s.last(), t.last());
        // ends agree
        fmt_at_hit(s, s.len() - 1, x.byte_end - 1);
        fmt_at_hit(t, t.len() - 1, y.byte_end - 1);
        if x.byte_end < y.byte_end { let i = fmt_at_some(s, y.byte_end - 1); assert(s[i].byte_end <= x.byte_end); assert(false); }
        if y.byte_end < x.byte_end { let i = fmt_at_some(t, x.byte_end - 1); assert(t[i].byte_end <= y.byte_end); assert(false); }
        assert(x.format == y.format);
        // starts agree
        if x.byte_start < y.byte_start {
            let p = y.byte_start - 1;
            fmt_at_hit(s, s.len() - 1, p as int);
            let i = fmt_at_some(t, p as int);
            assert(i < t.len() - 1);
            assert(t[i].byte_end == y.byte_start);
            if i < t.len() - 2 { assert(t[t.len() - 2].byte_start >= t[i].byte_end); assert(t[t.len() - 2].byte_end <= y.byte_start); assert(false); }
            assert(false);
        }
        if y.byte_start < x.byte_start {
            let p = x.byte_start - 1;
            fmt_at_hit(t, t.len() - 1, p as int);
            let i = fmt_at_some(s, p as int);
            assert(i < s.len() - 1);
            assert(s[i].byte_end == x.byte_start);
            if i < s.len() - 2 { assert(s[s.len() - 2].byte_start >= s[i].byte_end); assert(s[s.len() - 2].byte_end <= x.byte_start); assert(false); }
            assert(false);
        }
        assert(x == y);
        let (s1, t1) = (s.drop_last(), t.drop_last());
        assert forall|b: int| #[trigger] fmt_at(s1, b) == fmt_at(t1, b) by {
            if covers(x, b) {
                assert(none_covers(s1, b)) by { assert forall|i: int| 0 <= i < s1.len() implies !covers(#[trigger] s1[i], b) by { assert(s[i].byte_end <= x.byte_start); } }
                assert(none_covers(t1, b)) by { assert forall|i: int| 0 <= i < t1.len() implies !covers(#[trigger] t1[i], b) by { assert(t[i].byte_end <= y.byte_start); } }
                fmt_at_miss(s1, b);
                fmt_at_miss(t1, b);
            } else {
                assert(fmt_at(s, b) == fmt_at(s1, b));
                assert(fmt_at(t, b) == fmt_at(t1, b));
            }
        }
        assert(canonical(s1) && canonical(t1));
        canonical_unique(s1, t1);
        assert(s =~= s1.push(x));
        assert(t =~= t1.push(y));
    }
}

//@ use coalesce_ops.vrs

/// what a range shows after `repl` took its place
pub open spec fn spliced(old_: Seq<FormatRun>, lo: int, hi: int, repl: Seq<FormatRun>, b: int) -> Option<CharacterFormat> {
    if lo <= b < hi { fmt_at(repl, b) } else { fmt_at(old_, b) }
}
pub open spec fn clip_left(r: FormatRun, lo: u32) -> FormatRun { FormatRun { byte_end: if r.byte_end <= lo { r.byte_end } else { lo }, ..r } }
pub open spec fn clip_right(r: FormatRun, hi: u32) -> FormatRun { FormatRun { byte_start: if r.byte_start >= hi { r.byte_start } else { hi }, ..r } }
/// s shows exactly what t shows inside [lo, hi) and nothing outside
pub open spec fn shows_part(s: Seq<FormatRun>, t: Seq<FormatRun>, lo: int, hi: int) -> bool {
    forall|b: int| #[trigger] fmt_at(s, b) == if lo <= b < hi { fmt_at(t, b) } else { None }
}
pub proof fn part_step(s: Seq<FormatRun>, t: Seq<FormatRun>, r: FormatRun, lo: int, hi: int)
    requires wf(t.push(r)), wf(s), shows_part(s, t, lo, hi),
    ensures
        covers_none(r, lo, hi) ==> shows_part(s, t.push(r), lo, hi),
        forall|x: FormatRun| x.format == r.format && #[trigger] clip_of(x, r, lo, hi) ==> wf(s.push(x)) && shows_part(s.push(x), t.push(r), lo, hi),
{
    let t2 = t.push(r);
    assert forall|b: int| #[trigger] fmt_at(t2, b) == if covers(r, b) { Some(r.format) } else { fmt_at(t, b) } by { fmt_at_push(t, r, b); }
    if covers_none(r, lo, hi) {
        assert forall|b: int| #[trigger] fmt_at(s, b) == if lo <= b < hi { fmt_at(t2, b) } else { None } by { assert(fmt_at(t2, b) == if covers(r, b) { Some(r.format) } else { fmt_at(t, b) }); }
    }
    assert forall|x: FormatRun| x.format == r.format && #[trigger] clip_of(x, r, lo, hi) implies wf(s.push(x)) && shows_part(s.push(x), t.push(r), lo, hi) by {
        let s2 = s.push(x);
        assert forall|b: int| #[trigger] fmt_at(s2, b) == if lo <= b < hi { fmt_at(t2, b) } else { None } by {
            fmt_at_push(s, x, b);
            assert(fmt_at(t2, b) == if covers(r, b) { Some(r.format) } else { fmt_at(t, b) });
            assert(fmt_at(s, b) == if lo <= b < hi { fmt_at(t, b) } else { None });
        }
        assert(wf(s2)) by {
            assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).byte_end <= (#[trigger] s2[j]).byte_start by {
                if j == s.len() {
                    fmt_at_hit(s, i, s[i].byte_end - 1);
                    assert(fmt_at(s, s[i].byte_end - 1) is Some);
                    let k = fmt_at_some(t, s[i].byte_end - 1);
                    assert(t2[k] == t[k]);
                    assert(t2[k].byte_end <= t2[t.len() as int].byte_start);
                }
            }
        }
    }
}
pub open spec fn covers_none(r: FormatRun, lo: int, hi: int) -> bool { r.byte_end <= lo || r.byte_start >= hi || lo >= hi }
pub open spec fn clip_of(x: FormatRun, r: FormatRun, lo: int, hi: int) -> bool {
    x.byte_start < x.byte_end && x.byte_start == (if r.byte_start >= lo { r.byte_start as int } else { lo }) && x.byte_end == (if r.byte_end <= hi { r.byte_end as int } else { hi })
}
pub proof fn take_wf(s: Seq<FormatRun>, k: int)
    requires wf(s), 0 <= k <= s.len(),
    ensures wf(s.take(k)),
{}
//@ rw $a.extend($b) => vec_extend(&mut $a, $b)
//@ rw std::cmp::max($a, $b) => max_u32($a, $b)
//@ rw std::cmp::min($a, $b) => min_u32($a, $b)
pub fn max_u32(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min_u32(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vec_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { let mut b = b; a.append(&mut b); }

pub open spec fn inf() -> int { 0x1_0000_0000 }
pub proof fn part_within(s: Seq<FormatRun>, t: Seq<FormatRun>, lo: int, hi: int)
    requires wf(s), shows_part(s, t, lo, hi),
    ensures within(s, lo, hi),
{
    assert forall|i: int| 0 <= i < s.len() implies lo <= (#[trigger] s[i]).byte_start && s[i].byte_end <= hi by {
        fmt_at_hit(s, i, s[i].byte_start as int);
        fmt_at_hit(s, i, s[i].byte_end - 1);
        assert(fmt_at(s, s[i].byte_start as int) is Some);
        assert(fmt_at(s, s[i].byte_end - 1) is Some);
    }
}
pub proof fn concat_wf(s: Seq<FormatRun>, t: Seq<FormatRun>, lo: int, m: int, hi: int)
    requires wf(s), wf(t), within(s, lo, m), within(t, m, hi), lo <= m <= hi,
    ensures wf(s + t), within(s + t, lo, hi),
{
    let u = s + t;
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).byte_end <= (#[trigger] u[j]).byte_start by {
        if i < s.len() && j >= s.len() { assert(u[i] == s[i]); assert(u[j] == t[j - s.len()]); }
    }
}
pub proof fn splice_parts(o: Seq<FormatRun>, left: Seq<FormatRun>, repl: Seq<FormatRun>, rt: Seq<FormatRun>, lo: int, hi: int)
    requires 0 <= lo <= hi <= inf(), wf(o), wf(left), wf(repl), wf(rt), shows_part(left, o, 0, lo), within(repl, lo, hi), shows_part(rt, o, hi, inf()),
    ensures wf(left + repl + rt), forall|b: int| #[trigger] fmt_at(left + repl + rt, b) == spliced(o, lo, hi, repl, b),
{
    part_within(left, o, 0, lo);
    part_within(rt, o, hi, inf());
    concat_wf(left, repl, 0, lo, hi);
    concat_wf(left + repl, rt, 0, hi, inf());
    assert forall|b: int| #[trigger] fmt_at(left + repl + rt, b) == spliced(o, lo, hi, repl, b) by {
        fmt_at_add(left + repl, rt, b);
        fmt_at_add(left, repl, b);
        assert(fmt_at(left, b) == if 0 <= b < lo { fmt_at(o, b) } else { None });
        assert(fmt_at(rt, b) == if hi <= b < inf() { fmt_at(o, b) } else { None });
        fmt_at_cases(repl, b);
        fmt_at_cases(o, b);
    }
}

//@ fn crates/common/src/format_runs.rs splice_range
requires wf(old(runs)@), wf(replacement@), range.start <= range.end, within(replacement@, range.start as int, range.end as int),
    old(runs).len() + replacement.len() <= usize::MAX,
ensures canonical(final(runs)@),
    forall|b: int| #[trigger] fmt_at(final(runs)@, b) == spliced(old(runs)@, range.start as int, range.end as int, replacement@, b),
//@ loop 0 it
invariant
    runs@ == old(runs)@,
    wf(old(runs)@),
    it.seq().len() == old(runs)@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(runs)@[i],
    wf(result@),
    shows_part(result@, old(runs)@.take(it.index@), 0, range.start as int),
//@ loop 0 top
//raw
let ghost pre = result@;
proof {
take_wf(old(runs)@, it.index@ + 1);
assert(old(runs)@.take(it.index@ + 1) =~= old(runs)@.take(it.index@).push(*run));
part_step(result@, old(runs)@.take(it.index@), *run, 0, range.start as int);
}
//@ loop 0 bottom
if result@.len() > pre.len() {
    assert(result@ =~= pre.push(result@.last()));
    assert(clip_of(result@.last(), *run, 0, range.start as int));
}
//@ loop 0 after
//raw
assert(old(runs)@.take(old(runs)@.len() as int) =~= old(runs)@);
let ghost left = result@;
let ghost repl = replacement@;
//@ loop 1 before
//raw
let ghost base = result@;
assert(base == left + repl);
assert(result@.skip(base.len() as int) =~= Seq::<FormatRun>::empty());
//@ loop 1 it
invariant
    runs@ == old(runs)@,
    wf(old(runs)@),
    it.seq().len() == old(runs)@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(runs)@[i],
    base.len() <= result@.len(),
    result@.take(base.len() as int) == base,
    wf(result@.skip(base.len() as int)),
    shows_part(result@.skip(base.len() as int), old(runs)@.take(it.index@), range.end as int, inf()),
//@ loop 1 top
//raw
let ghost pre = result@;
proof {
take_wf(old(runs)@, it.index@ + 1);
assert(old(runs)@.take(it.index@ + 1) =~= old(runs)@.take(it.index@).push(*run));
part_step(pre.skip(base.len() as int), old(runs)@.take(it.index@), *run, range.end as int, inf());
}
//@ loop 1 bottom
if result@.len() > pre.len() {
    assert(result@.skip(base.len() as int) =~= pre.skip(base.len() as int).push(result@.last()));
    assert(clip_of(result@.last(), *run, range.end as int, inf()));
    assert(result@.take(base.len() as int) =~= base);
}
//@ loop 1 after
assert(old(runs)@.take(old(runs)@.len() as int) =~= old(runs)@);
assert(result@ =~= left + repl + result@.skip(base.len() as int));
splice_parts(old(runs)@, left, repl, result@.skip(base.len() as int), range.start as int, range.end as int);
//@ end

//@ fn crates/common/src/format_runs.rs capture_runs_in_range
requires wf(runs@),
ensures wf(r@), shows_part(r@, runs@, start as int, end as int), within(r@, start as int, end as int),
//@ loop 0 it
invariant
    wf(runs@),
    it.seq().len() == runs@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == runs@[i],
    wf(out@),
    shows_part(out@, runs@.take(it.index@), start as int, end as int),
//@ loop 0 top
//raw
let ghost pre = out@;
proof {
take_wf(runs@, it.index@ + 1);
assert(runs@.take(it.index@ + 1) =~= runs@.take(it.index@).push(*run));
part_step(out@, runs@.take(it.index@), *run, start as int, end as int);
}
//@ loop 0 bottom
if out@.len() > pre.len() {
    assert(out@ =~= pre.push(out@.last()));
    assert(clip_of(out@.last(), *run, start as int, end as int));
}
//@ loop 0 after
assert(runs@.take(runs@.len() as int) =~= runs@);
part_within(out@, runs@, start as int, end as int);
//@ end

//@ fn crates/common/src/format_runs.rs shift_after
requires forall|i: int| 0 <= i < old(runs)@.len() && (#[trigger] old(runs)@[i]).byte_start >= threshold ==>
    0 <= old(runs)@[i].byte_start + delta <= u32::MAX && 0 <= old(runs)@[i].byte_end + delta <= u32::MAX,
ensures final(runs)@.len() == old(runs)@.len(),
    forall|i: int| 0 <= i < old(runs)@.len() ==> #[trigger] final(runs)@[i] == shifted(old(runs)@[i], threshold as int, delta as int),
//@ loop 0 it
invariant
    it.seq().len() == old(runs)@.len(),
    forall|i: int| 0 <= i < old(runs)@.len() && (#[trigger] old(runs)@[i]).byte_start >= threshold ==>
        0 <= old(runs)@[i].byte_start + delta <= u32::MAX && 0 <= old(runs)@[i].byte_end + delta <= u32::MAX,
    forall|i: int| 0 <= i < old(runs)@.len() ==> *(#[trigger] it.seq()[i]) == old(runs)@[i],
    forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == shifted(old(runs)@[i], threshold as int, delta as int),
//@ loop 0 top
assert(*it.seq()[it.index@] == old(runs)@[it.index@]);
//@ end

/// the format a byte shows after `ins` bytes were inserted at `off`: the inserted bytes take the
/// format of the byte on their left
pub open spec fn inserted(o: Seq<FormatRun>, off: int, ins: int, b: int) -> Option<CharacterFormat> {
    if b < off { fmt_at(o, b) } else if b < off + ins { fmt_at(o, off - 1) } else { fmt_at(o, b - ins) }
}
pub open spec fn grown(r: FormatRun, off: int, ins: int) -> FormatRun {
    if r.byte_start >= off { FormatRun { byte_start: (r.byte_start + ins) as u32, byte_end: (r.byte_end + ins) as u32, ..r } }
    else if r.byte_end >= off { FormatRun { byte_end: (r.byte_end + ins) as u32, ..r } } else { r }
}
pub proof fn grown_shows(o: Seq<FormatRun>, n: Seq<FormatRun>, off: int, ins: int)
    requires wf(o), 0 <= off, 0 < ins, n.len() == o.len(),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).byte_end + ins <= u32::MAX,
        forall|i: int| 0 <= i < o.len() ==> #[trigger] n[i] == grown(o[i], off, ins),
    ensures wf(n), forall|b: int| #[trigger] fmt_at(n, b) == inserted(o, off, ins, b),
        coalesced(o) ==> coalesced(n),
{
    assert(wf(n)) by {
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).byte_end <= (#[trigger] n[j]).byte_start by {
            assert(n[i] == grown(o[i], off, ins) && n[j] == grown(o[j], off, ins));
            assert(o[i].byte_end <= o[j].byte_start);
        }
        assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).byte_start < n[i].byte_end by { assert(o[i].byte_start < o[i].byte_end); }
    }
    assert forall|b: int| #[trigger] fmt_at(n, b) == inserted(o, off, ins, b) by {
        let p = if b < off { b } else if b < off + ins { off - 1 } else { b - ins };
        if exists|i: int| 0 <= i < o.len() && covers(#[trigger] o[i], p) {
            let i = choose|i: int| 0 <= i < o.len() && covers(#[trigger] o[i], p);
            fmt_at_hit(o, i, p);
            assert(n[i] == grown(o[i], off, ins));
            fmt_at_hit(n, i, b);
        } else {
            fmt_at_miss(o, p);
            assert forall|i: int| 0 <= i < n.len() implies !covers(#[trigger] n[i], b) by {
                assert(n[i] == grown(o[i], off, ins));
                assert(!covers(o[i], p));
            }
            fmt_at_miss(n, b);
        }
    }
    if coalesced(o) {
        assert forall|i: int, j: int| 0 <= i < n.len() && j == i + 1 && j < n.len() implies !mergeable(#[trigger] n[i], #[trigger] n[j]) by {
            assert(!mergeable(o[i], o[j]));
            assert(o[i].byte_end <= o[j].byte_start);
            assert(n[i] == grown(o[i], off, ins) && n[j] == grown(o[j], off, ins));
        }
    }
}
//@ fn crates/common/src/format_runs.rs shift_runs_for_insert
requires wf(old(runs)@), forall|i: int| 0 <= i < old(runs)@.len() ==> (#[trigger] old(runs)@[i]).byte_end + inserted_bytes <= u32::MAX,
ensures wf(final(runs)@),
    forall|b: int| #[trigger] fmt_at(final(runs)@, b) == inserted(old(runs)@, byte_offset as int, inserted_bytes as int, b),
    coalesced(old(runs)@) ==> coalesced(final(runs)@),
//@ loop 0 it
invariant
    it.seq().len() == old(runs)@.len(),
    forall|i: int| 0 <= i < old(runs)@.len() ==> (#[trigger] old(runs)@[i]).byte_end + inserted_bytes <= u32::MAX,
    wf(old(runs)@),
    forall|i: int| 0 <= i < old(runs)@.len() ==> *(#[trigger] it.seq()[i]) == old(runs)@[i],
    forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == grown(old(runs)@[i], byte_offset as int, inserted_bytes as int),
//@ loop 0 top
assert(*it.seq()[it.index@] == old(runs)@[it.index@]);
//@ loop 0 after
grown_shows(old(runs)@, runs@, byte_offset as int, inserted_bytes as int);
//@ end

pub open spec fn removed(o: Seq<FormatRun>, lo: int, hi: int, b: int) -> Option<CharacterFormat> {
    if b < lo { fmt_at(o, b) } else { fmt_at(o, b + (hi - lo)) }
}
pub proof fn cut_shows(o: Seq<FormatRun>, s: Seq<FormatRun>, n: Seq<FormatRun>, lo: int, hi: int)
    requires wf(o), wf(s), 0 <= lo < hi, n.len() == s.len(),
        forall|b: int| #[trigger] fmt_at(s, b) == (if lo <= b < hi { None } else { fmt_at(o, b) }),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] n[i] == shifted(s[i], hi, lo - hi),
    ensures wf(n), forall|b: int| #[trigger] fmt_at(n, b) == removed(o, lo, hi, b),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).byte_end <= lo || s[i].byte_start >= hi by {
        let a = if s[i].byte_start >= lo { s[i].byte_start as int } else { lo };
        if s[i].byte_end > lo && s[i].byte_start < hi { fmt_at_hit(s, i, a); assert(fmt_at(s, a) is None); }
    }
    assert(wf(n)) by {
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).byte_end <= (#[trigger] n[j]).byte_start by {
            assert(s[i].byte_end <= s[j].byte_start);
            assert(n[i] == shifted(s[i], hi, lo - hi) && n[j] == shifted(s[j], hi, lo - hi));
        }
        assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).byte_start < n[i].byte_end by { assert(s[i].byte_start < s[i].byte_end); }
    }
    assert forall|b: int| #[trigger] fmt_at(n, b) == removed(o, lo, hi, b) by {
        let p = if b < lo { b } else { b + (hi - lo) };
        assert(fmt_at(s, p) == fmt_at(o, p));
        if exists|i: int| 0 <= i < s.len() && covers(#[trigger] s[i], p) {
            let i = choose|i: int| 0 <= i < s.len() && covers(#[trigger] s[i], p);
            fmt_at_hit(s, i, p);
            assert(n[i] == shifted(s[i], hi, lo - hi));
            fmt_at_hit(n, i, b);
        } else {
            fmt_at_miss(s, p);
            assert forall|i: int| 0 <= i < n.len() implies !covers(#[trigger] n[i], b) by {
                assert(n[i] == shifted(s[i], hi, lo - hi));
                assert(!covers(s[i], p));
            }
            fmt_at_miss(n, b);
        }
    }
}
pub open spec fn shifted(r: FormatRun, threshold: int, delta: int) -> FormatRun {
    if r.byte_start >= threshold { FormatRun { byte_start: (r.byte_start + delta) as u32, byte_end: (r.byte_end + delta) as u32, ..r } } else { r }
}
//@ fn crates/common/src/format_runs.rs shift_runs_for_delete
requires wf(old(runs)@), byte_end - byte_start <= i32::MAX,
ensures
    byte_start < byte_end ==> canonical(final(runs)@) && forall|b: int| #[trigger] fmt_at(final(runs)@, b) == removed(old(runs)@, byte_start as int, byte_end as int, b),
    byte_start >= byte_end ==> final(runs)@ == old(runs)@,
//@ after splice_range 0
//raw
let ghost cut = runs@;
proof {
assert forall|b: int| #[trigger] fmt_at(cut, b) == (if byte_start <= b < byte_end { None } else { fmt_at(old(runs)@, b) }) by {
    assert(fmt_at(cut, b) == spliced(old(runs)@, byte_start as int, byte_end as int, Seq::empty(), b));
}
}
//@ after shift_after 0
//raw
let ghost moved = runs@;
proof { cut_shows(old(runs)@, cut, moved, byte_start as int, byte_end as int); }
//@ after coalesce_in_place 0
assert forall|b: int| #[trigger] fmt_at(runs@, b) == removed(old(runs)@, byte_start as int, byte_end as int, b) by { assert(fmt_at(runs@, b) == fmt_at(moved, b)); }
//@ end

//@ fn crates/common/src/format_runs.rs split_runs_at
requires wf(runs@),
ensures wf(r.0@), wf(r.1@), shows_part(r.0@, runs@, 0, byte_offset as int),
    forall|b: int| #[trigger] fmt_at(r.1@, b) == if b >= 0 { fmt_at(runs@, b + byte_offset) } else { None },
    coalesced(runs@) ==> coalesced(r.0@) && coalesced(r.1@),
//@ loop 0 it
invariant
    wf(runs@),
    it.seq().len() == runs@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == runs@[i],
    wf(left@), wf(right@),
    coalesced(runs@) ==> coalesced(left@) && coalesced(right@),
    ends_with(left@, runs@, it.index@ as int, byte_offset as int), tail_ends_with(right@, runs@, it.index@ as int, byte_offset as int),
    shows_part(left@, runs@.take(it.index@), 0, byte_offset as int),
    shows_tail(right@, runs@.take(it.index@), byte_offset as int),
//@ loop 0 top
//raw
let ghost pre = left@;
let ghost pre2 = right@;
proof {
take_wf(runs@, it.index@ + 1);
assert(runs@.take(it.index@ + 1) =~= runs@.take(it.index@).push(*run));
part_step(left@, runs@.take(it.index@), *run, 0, byte_offset as int);
tail_step(right@, runs@.take(it.index@), *run, byte_offset as int);
}
//@ loop 0 bottom
if left@.len() > pre.len() {
    assert(left@ =~= pre.push(left@.last()));
    assert(clip_of(left@.last(), *run, 0, byte_offset as int));
}
if right@.len() > pre2.len() {
    assert(right@ =~= pre2.push(right@.last()));
    assert(tail_of(right@.last(), *run, byte_offset as int));
}
//@ loop 0 after
assert(runs@.take(runs@.len() as int) =~= runs@);
//@ end
/// what the last run of the left part comes from, while runs end before off
pub open spec fn ends_with(left: Seq<FormatRun>, runs: Seq<FormatRun>, k: int, off: int) -> bool {
    left.len() > 0 && k < runs.len() && runs[k].byte_start < off ==> k > 0 && left.last() == runs[k - 1]
}
pub open spec fn tail_ends_with(right: Seq<FormatRun>, runs: Seq<FormatRun>, k: int, off: int) -> bool {
    right.len() > 0 ==> k > 0 && right.last().format == runs[k - 1].format && right.last().byte_end == runs[k - 1].byte_end - off
}
pub open spec fn shows_tail(s: Seq<FormatRun>, t: Seq<FormatRun>, off: int) -> bool {
    forall|b: int| #[trigger] fmt_at(s, b) == if b >= 0 { fmt_at(t, b + off) } else { None }
}
pub open spec fn tail_of(x: FormatRun, r: FormatRun, off: int) -> bool {
    x.byte_start < x.byte_end && x.byte_end == r.byte_end - off && x.byte_start == (if r.byte_start >= off { r.byte_start - off } else { 0 })
}
pub proof fn tail_step(s: Seq<FormatRun>, t: Seq<FormatRun>, r: FormatRun, off: int)
    requires wf(t.push(r)), wf(s), shows_tail(s, t, off), 0 <= off,
    ensures
        r.byte_end <= off ==> shows_tail(s, t.push(r), off),
        forall|x: FormatRun| x.format == r.format && #[trigger] tail_of(x, r, off) ==> wf(s.push(x)) && shows_tail(s.push(x), t.push(r), off),
{
    let t2 = t.push(r);
    assert forall|b: int| #[trigger] fmt_at(t2, b) == if covers(r, b) { Some(r.format) } else { fmt_at(t, b) } by { fmt_at_push(t, r, b); }
    if r.byte_end <= off {
        assert forall|b: int| #[trigger] fmt_at(s, b) == if b >= 0 { fmt_at(t2, b + off) } else { None } by { assert(fmt_at(t2, b + off) == if covers(r, b + off) { Some(r.format) } else { fmt_at(t, b + off) }); }
    }
    assert forall|x: FormatRun| x.format == r.format && #[trigger] tail_of(x, r, off) implies wf(s.push(x)) && shows_tail(s.push(x), t.push(r), off) by {
        let s2 = s.push(x);
        assert forall|b: int| #[trigger] fmt_at(s2, b) == if b >= 0 { fmt_at(t2, b + off) } else { None } by {
            fmt_at_push(s, x, b);
            assert(fmt_at(t2, b + off) == if covers(r, b + off) { Some(r.format) } else { fmt_at(t, b + off) });
            assert(fmt_at(s, b) == if b >= 0 { fmt_at(t, b + off) } else { None });
        }
        assert(wf(s2)) by {
            assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).byte_end <= (#[trigger] s2[j]).byte_start by {
                if j == s.len() {
                    fmt_at_hit(s, i, s[i].byte_end - 1);
                    assert(fmt_at(s, s[i].byte_end - 1) is Some);
                    let k = fmt_at_some(t, s[i].byte_end - 1 + off);
                    assert(t2[k] == t[k]);
                    assert(t2[k].byte_end <= t2[t.len() as int].byte_start);
                }
            }
        }
    }
}
