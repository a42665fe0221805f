// ---- a document: paragraphs laid end to end with one separator
pub type Lines = Seq<Seq<char>>;
pub open spec fn before(l: Lines, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { seq![] } else { before(l, k - 1) + l[k - 1] + seq!['\n'] } }
pub open spec fn joined(l: Lines) -> Seq<char> { if l.len() == 0 { seq![] } else { before(l, l.len() - 1) + l.last() } }
pub open spec fn at_line(l: Lines, k: int) -> int { before(l, k).len() as int }
pub proof fn line_in(l: Lines, k: int, n: int)
    requires 0 <= k < n <= l.len(),
    ensures
        before(l, k).len() + l[k].len() + 1 <= before(l, n).len(),
        before(l, n).subrange(0, at_line(l, k) + l[k].len() + 1) == before(l, k) + l[k] + seq!['\n'],
    decreases n,
{
    let t = before(l, n - 1) + l[n - 1] + seq!['\n'];
    if k == n - 1 { assert(t.subrange(0, at_line(l, k) + l[k].len() + 1) =~= t); }
    else { line_in(l, k, n - 1); assert(t.subrange(0, at_line(l, k) + l[k].len() + 1) =~= before(l, n - 1).subrange(0, at_line(l, k) + l[k].len() + 1)); }
}
/// where a line stands in the joined text
pub proof fn line_at(l: Lines, k: int)
    requires 0 <= k < l.len(),
    ensures
        at_line(l, k) + l[k].len() <= joined(l).len(), joined(l).subrange(at_line(l, k), at_line(l, k) + l[k].len()) == l[k],
        k + 1 < l.len() ==> at_line(l, k + 1) == at_line(l, k) + l[k].len() + 1 && at_line(l, k + 1) <= joined(l).len() && joined(l)[at_line(l, k) + l[k].len() as int] == '\n',
        k + 1 == l.len() ==> joined(l).len() == at_line(l, k) + l[k].len(),
{
    let n = l.len() - 1; let (a, b) = (at_line(l, k), at_line(l, k) + l[k].len());
    if k == n { assert(joined(l).subrange(a, b) =~= l[k]); }
    else {
        line_in(l, k, n); let p = before(l, k) + l[k] + seq!['\n'];
        assert(before(l, k + 1) == p);
        let q = before(l, n).subrange(0, b + 1);
        assert forall|i: int| 0 <= i <= b implies joined(l)[i] == p[i] by { assert(q[i] == before(l, n)[i]); }
        assert(joined(l)[b] == p[b]);
        assert forall|j: int| 0 <= j < l[k].len() implies joined(l).subrange(a, b)[j] == l[k][j] by { assert(joined(l)[a + j] == p[a + j]); }
        assert(joined(l).subrange(a, b) =~= l[k]);
    }
}
/// lines stand in order
pub proof fn lines_up(l: Lines, i: int, j: int)
    requires 0 <= i <= j < l.len(),
    ensures at_line(l, i) <= at_line(l, j), i < j ==> at_line(l, i) + l[i].len() < at_line(l, j), 0 <= at_line(l, i),
    decreases j,
{ if i < j { line_in(l, i, j); } }
pub proof fn next_line(l: Lines, k: int)
    requires 0 <= k < l.len(),
    ensures at_line(l, k + 1) == at_line(l, k) + l[k].len() + 1, k + 1 == l.len() ==> at_line(l, k + 1) - 1 == joined(l).len(), at_line(l, k + 1) - 1 <= joined(l).len(),
{ line_at(l, k); assert(before(l, k + 1) == before(l, k) + l[k] + seq!['\n']); }
