"""Tables of bit sets with three and two indexes (specifications and lemmas only)"""
from build import Module


def module():
    m = Module("tables")
    m.text(r"""
use super::bitset::*;

/// The row of the table for the indexes `s` and `f`
pub open spec fn at(t: BitSet3D, s: int, f: int) -> Seq<u32> { t.row((s as usize, f as usize)) }
/// The table has `a` times `b` rows for sets of `n` elements
pub open spec fn dims(t: BitSet3D, a: int, b: int, n: int) -> bool {
    0 <= a && 0 < b && 0 < n && t.size.0 == b && t.size.1 == blocks_for(n) && t.blocks@.len() == (a * b) * blocks_for(n) && (a * b) * blocks_for(n) <= usize::MAX
        && a * b <= usize::MAX && a <= usize::MAX
}
/// A set has one row only
pub proof fn lemma_unit(t: BitSet1D)
    ensures t.row(()) == t.blocks@, forall|x: Seq<u32>| x.len() == t.blocks@.len() ==> #[trigger] t.with_row((), x) == x,
{
    assert(t.row(()) =~= t.blocks@);
    assert forall|x: Seq<u32>| x.len() == t.blocks@.len() implies #[trigger] t.with_row((), x) == x by { assert(t.with_row((), x) =~= x); }
}
pub open spec fn at2(t: BitSet2D, f: int) -> Seq<u32> { t.row(f as usize) }
pub open spec fn dims2(t: BitSet2D, b: int, n: int) -> bool {
    0 <= b && 0 < n && t.size == blocks_for(n) && t.blocks@.len() == b * blocks_for(n) && b * blocks_for(n) <= usize::MAX && b < usize::MAX
}
pub proof fn lemma_index(a: int, b: int, k: int, s: int, f: int)
    requires 0 <= s < a, 0 <= f < b, 0 < k
    ensures 0 <= b * s + f < a * b, 0 <= k * (b * s + f), k * (b * s + f) + k <= (a * b) * k,
{
    assert(b * s + f < a * b) by (nonlinear_arith) requires 0 <= s < a, 0 <= f < b;
    assert(0 <= b * s) by (nonlinear_arith) requires 0 <= s, 0 < b;
    let i = b * s + f;
    let n = a * b;
    assert(0 <= k * i && k * i + k <= n * k) by (nonlinear_arith) requires 0 <= i < n, 0 < k;
}
pub proof fn lemma_row(t: BitSet3D, a: int, b: int, n: int, s: int, f: int)
    requires dims(t, a, b, n), 0 <= s < a, 0 <= f < b
    ensures t.fits((s as usize, f as usize)), at(t, s, f).len() == blocks_for(n),
        at(t, s, f) == t.blocks@.subrange(blocks_for(n) * (b * s + f), blocks_for(n) * (b * s + f) + blocks_for(n)),
{
    lemma_index(a, b, blocks_for(n), s, f);
}
pub proof fn lemma_rows(t: BitSet3D, a: int, b: int, n: int)
    requires dims(t, a, b, n)
    ensures forall|s: int, f: int| 0 <= s < a && 0 <= f < b ==> (#[trigger] at(t, s, f)).len() == blocks_for(n)
{
    assert forall|s: int, f: int| 0 <= s < a && 0 <= f < b implies (#[trigger] at(t, s, f)).len() == blocks_for(n) by { lemma_row(t, a, b, n, s, f); }
}
/// Two ranges of the same length are equal or disjoint
pub proof fn lemma_apart(k: int, i: int, j: int)
    requires 0 < k, i != j
    ensures k * i + k <= k * j || k * j + k <= k * i
{
    if i < j { assert(k * i + k <= k * j) by (nonlinear_arith) requires 0 < k, i < j; }
    else { assert(k * j + k <= k * i) by (nonlinear_arith) requires 0 < k, j < i; }
}
/// Replacing one row leaves the others as they are
pub proof fn lemma_with_row(t: BitSet3D, u: BitSet3D, a: int, b: int, n: int, s: int, f: int)
    requires dims(t, a, b, n), 0 <= s < a, 0 <= f < b, u.size == t.size, exists|x: Seq<u32>| x.len() == blocks_for(n) && u.blocks@ == #[trigger] t.with_row((s as usize, f as usize), x)
    ensures dims(u, a, b, n), u.blocks@ == t.with_row((s as usize, f as usize), at(u, s, f)),
        forall|x: Seq<u32>| u.blocks@ == #[trigger] t.with_row((s as usize, f as usize), x) && x.len() == blocks_for(n) ==> x == at(u, s, f),
        forall|s2: int, f2: int| 0 <= s2 < a && 0 <= f2 < b && (s2 != s || f2 != f) ==> #[trigger] at(u, s2, f2) == at(t, s2, f2),
{
    let k = blocks_for(n);
    lemma_index(a, b, k, s, f);
    let p = k * (b * s + f);
    assert forall|x: Seq<u32>| u.blocks@ == #[trigger] t.with_row((s as usize, f as usize), x) && x.len() == blocks_for(n) implies x == at(u, s, f) by {
        lemma_row(u, a, b, n, s, f);
        assert(at(u, s, f) =~= x);
    }
    let x = choose|x: Seq<u32>| x.len() == blocks_for(n) && u.blocks@ == #[trigger] t.with_row((s as usize, f as usize), x);
    assert(t.size.lo((s as usize, f as usize), t.blocks@.len()) == p);
    assert(u.blocks@.len() == t.blocks@.len());
    lemma_row(u, a, b, n, s, f);
    assert(at(u, s, f) =~= x);
    assert forall|s2: int, f2: int| 0 <= s2 < a && 0 <= f2 < b && (s2 != s || f2 != f) implies #[trigger] at(u, s2, f2) == at(t, s2, f2) by {
        lemma_row(t, a, b, n, s2, f2);
        lemma_row(u, a, b, n, s2, f2);
        lemma_index(a, b, k, s2, f2);
        if s != s2 { lemma_apart(b, s, s2); }
        assert(b * s + f != b * s2 + f2);
        lemma_apart(k, b * s + f, b * s2 + f2);
        assert(at(u, s2, f2) =~= at(t, s2, f2));
    }
}
pub proof fn lemma_row2(t: BitSet2D, b: int, n: int, f: int)
    requires dims2(t, b, n), 0 <= f < b
    ensures t.fits(f as usize), at2(t, f).len() == blocks_for(n), at2(t, f) == t.blocks@.subrange(blocks_for(n) * f, blocks_for(n) * f + blocks_for(n)),
{
    let k = blocks_for(n);
    assert(0 <= k * f && k * (f + 1) <= b * k && k * (f + 1) == k * f + k) by (nonlinear_arith) requires 0 <= f < b, 0 < k;
}
pub proof fn lemma_with_row2(t: BitSet2D, u: BitSet2D, b: int, n: int, f: int)
    requires dims2(t, b, n), 0 <= f < b, u.size == t.size, exists|x: Seq<u32>| x.len() == blocks_for(n) && u.blocks@ == #[trigger] t.with_row(f as usize, x)
    ensures dims2(u, b, n), u.blocks@ == t.with_row(f as usize, at2(u, f)),
        forall|x: Seq<u32>| u.blocks@ == #[trigger] t.with_row(f as usize, x) && x.len() == blocks_for(n) ==> x == at2(u, f),
        forall|f2: int| 0 <= f2 < b && f2 != f ==> #[trigger] at2(u, f2) == at2(t, f2),
{
    let k = blocks_for(n);
    lemma_row2(t, b, n, f);
    assert(0 <= k * f && k * (f + 1) <= b * k && k * (f + 1) == k * f + k) by (nonlinear_arith) requires 0 <= f < b, 0 < k;
    assert forall|x: Seq<u32>| u.blocks@ == #[trigger] t.with_row(f as usize, x) && x.len() == blocks_for(n) implies x == at2(u, f) by {
        lemma_row2(u, b, n, f);
        assert(at2(u, f) =~= x);
    }
    let x = choose|x: Seq<u32>| x.len() == blocks_for(n) && u.blocks@ == #[trigger] t.with_row(f as usize, x);
    lemma_row2(u, b, n, f);
    assert forall|f2: int| 0 <= f2 < b && f2 != f implies #[trigger] at2(u, f2) == at2(t, f2) by {
        lemma_row2(t, b, n, f2);
        lemma_row2(u, b, n, f2);
        lemma_apart(k, f, f2);
        assert(0 <= k * f2 && k * (f2 + 1) <= b * k && k * (f2 + 1) == k * f2 + k) by (nonlinear_arith) requires 0 <= f2 < b, 0 < k;
        assert(at2(u, f2) =~= at2(t, f2));
    }
}
""")
    return m
