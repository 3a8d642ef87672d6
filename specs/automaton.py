"""Walks through the automaton, and the languages of its parts (specifications and lemmas only)"""
from build import Module


def module():
    m = Module("automaton")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::expression::*;

pub type Walk = spec_fn(int, Seq<Char>) -> bool;
/// One edge from the state `i` of lo..hi, and then `next`
pub open spec fn move_(ss: Seq<State>, lo: int, hi: int, next: Walk, i: int, v: Seq<Char>) -> bool {
    lo <= i < hi && (
        (exists|k: int| eps(ss, i, k) && #[trigger] next(k, v))
        || (v.len() > 0 && ss[i].char_bitset.has_sym(v[0].sym()) && next(ss[i].next_state as int, v.skip(1)))
    )
}
/// `n` edges, all of which start in lo..hi, lead from the state `i` to `t` by the string `v`
pub open spec fn walk(ss: Seq<State>, lo: int, hi: int, t: int, n: int) -> Walk
    decreases n
{
    if n <= 0 { |i: int, v: Seq<Char>| i == t && v.len() == 0 }
    else { |i: int, v: Seq<Char>| move_(ss, lo, hi, walk(ss, lo, hi, t, n - 1), i, v) }
}
pub open spec fn walks(ss: Seq<State>, lo: int, hi: int, t: int, i: int, v: Seq<Char>) -> bool { exists|n: int| 0 <= n && #[trigger] walk(ss, lo, hi, t, n)(i, v) }
/// The states lo..hi can only be left for `hi`
pub open spec fn closed(ss: Seq<State>, lo: int, hi: int) -> bool {
    &&& forall|i: int, k: int| lo <= i < hi && #[trigger] eps(ss, i, k) ==> lo <= k <= hi
    &&& forall|i: int| lo <= i < hi && #[trigger] ss[i].char_bitset != CharBitset::EMPTY ==> lo <= ss[i].next_state <= hi
}
/// The states lo..hi have the language `l`
pub open spec fn frag(ss: Seq<State>, lo: int, hi: int, l: Lang) -> bool {
    0 <= lo <= hi <= ss.len() && closed(ss, lo, hi) && (forall|v: Seq<Char>| #[trigger] l(v) == walks(ss, lo, hi, hi, lo, v))
}

pub proof fn lemma_walk_same(ss: Seq<State>, tt: Seq<State>, lo: int, hi: int, t: int, n: int, i: int, v: Seq<Char>)
    requires forall|j: int| lo <= j < hi ==> #[trigger] ss[j] == tt[j], walk(ss, lo, hi, t, n)(i, v)
    ensures walk(tt, lo, hi, t, n)(i, v)
    decreases n
{
    if n > 0 {
        assert(move_(ss, lo, hi, walk(ss, lo, hi, t, n - 1), i, v));
        assert(ss[i] == tt[i]);
        if exists|k: int| eps(ss, i, k) && #[trigger] walk(ss, lo, hi, t, n - 1)(k, v) {
            let k = choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, lo, hi, t, n - 1)(k, v);
            lemma_walk_same(ss, tt, lo, hi, t, n - 1, k, v);
            assert(eps(tt, i, k) && walk(tt, lo, hi, t, n - 1)(k, v));
        } else {
            lemma_walk_same(ss, tt, lo, hi, t, n - 1, ss[i].next_state as int, v.skip(1));
        }
        assert(move_(tt, lo, hi, walk(tt, lo, hi, t, n - 1), i, v));
    }
}
pub proof fn lemma_frag_same(ss: Seq<State>, tt: Seq<State>, lo: int, hi: int, l: Lang)
    requires frag(ss, lo, hi, l), forall|j: int| lo <= j < hi ==> #[trigger] ss[j] == tt[j], hi <= tt.len()
    ensures frag(tt, lo, hi, l)
{
    assert forall|i: int, k: int| lo <= i < hi && #[trigger] eps(tt, i, k) implies lo <= k <= hi by { assert(ss[i] == tt[i]); assert(eps(ss, i, k)); }
    assert forall|i: int| lo <= i < hi && #[trigger] tt[i].char_bitset != CharBitset::EMPTY implies lo <= tt[i].next_state <= hi by { assert(ss[i] == tt[i]); }
    assert forall|v: Seq<Char>| #[trigger] l(v) == walks(tt, lo, hi, hi, lo, v) by {
        assert(l(v) == walks(ss, lo, hi, hi, lo, v));
        if walks(ss, lo, hi, hi, lo, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, lo, hi, hi, n)(lo, v); lemma_walk_same(ss, tt, lo, hi, hi, n, lo, v); }
        if walks(tt, lo, hi, hi, lo, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(tt, lo, hi, hi, n)(lo, v); lemma_walk_same(tt, ss, lo, hi, hi, n, lo, v); }
    }
}
/// A first edge without a symbol
pub proof fn lemma_eps_step(ss: Seq<State>, lo: int, hi: int, t: int, i: int, k: int, v: Seq<Char>)
    requires lo <= i < hi, eps(ss, i, k), walks(ss, lo, hi, t, k, v)
    ensures walks(ss, lo, hi, t, i, v)
{
    let n = choose|n: int| 0 <= n && #[trigger] walk(ss, lo, hi, t, n)(k, v);
    assert(move_(ss, lo, hi, walk(ss, lo, hi, t, n), i, v));
    assert(walk(ss, lo, hi, t, n + 1)(i, v));
}
pub proof fn lemma_char_step(ss: Seq<State>, lo: int, hi: int, t: int, i: int, v: Seq<Char>)
    requires lo <= i < hi, v.len() > 0, ss[i].char_bitset.has_sym(v[0].sym()), walks(ss, lo, hi, t, ss[i].next_state as int, v.skip(1))
    ensures walks(ss, lo, hi, t, i, v)
{
    let n = choose|n: int| 0 <= n && #[trigger] walk(ss, lo, hi, t, n)(ss[i].next_state as int, v.skip(1));
    assert(move_(ss, lo, hi, walk(ss, lo, hi, t, n), i, v));
    assert(walk(ss, lo, hi, t, n + 1)(i, v));
}
pub proof fn lemma_here(ss: Seq<State>, lo: int, hi: int, t: int, v: Seq<Char>)
    requires v.len() == 0
    ensures walks(ss, lo, hi, t, t, v)
{
    assert(walk(ss, lo, hi, t, 0)(t, v));
}
/// A walk to `d` within a part, and one from `d`
pub proof fn lemma_join(ss: Seq<State>, c: int, d: int, u: int, lo: int, hi: int, t: int, n: int, i: int, k: int, v: Seq<Char>)
    requires lo <= c, d <= hi, 0 <= k <= v.len(), walk(ss, c, d, u, n)(i, v.take(k)), walks(ss, lo, hi, t, u, v.skip(k))
    ensures walks(ss, lo, hi, t, i, v)
    decreases n
{
    let p = v.take(k);
    if n <= 0 {
        assert(v.skip(k) =~= v);
    } else {
        assert(move_(ss, c, d, walk(ss, c, d, u, n - 1), i, p));
        if exists|j: int| eps(ss, i, j) && #[trigger] walk(ss, c, d, u, n - 1)(j, p) {
            let j = choose|j: int| eps(ss, i, j) && #[trigger] walk(ss, c, d, u, n - 1)(j, p);
            lemma_join(ss, c, d, u, lo, hi, t, n - 1, j, k, v);
            lemma_eps_step(ss, lo, hi, t, i, j, v);
        } else {
            let w = v.skip(1);
            assert(p.skip(1) =~= w.take(k - 1));
            assert(w.skip(k - 1) =~= v.skip(k));
            assert(p[0] == v[0]);
            lemma_join(ss, c, d, u, lo, hi, t, n - 1, ss[i].next_state as int, k - 1, w);
            lemma_char_step(ss, lo, hi, t, i, v);
        }
    }
}
/// A walk which leaves a part leaves it at its end: the part of the string that is read within it
pub proof fn lemma_leave(ss: Seq<State>, c: int, d: int, lo: int, hi: int, t: int, n: int, i: int, v: Seq<Char>) -> (r: (int, int))
    requires lo <= c <= i <= d <= hi, closed(ss, c, d), !(c <= t < d), walk(ss, lo, hi, t, n)(i, v)
    ensures 0 <= r.0 <= v.len(), walks(ss, c, d, d, i, v.take(r.0)), walk(ss, lo, hi, t, r.1)(d, v.skip(r.0)), r.1 <= n, i < d ==> r.1 < n, 0 <= n ==> 0 <= r.1,
    decreases n
{
    if i == d {
        assert(v.skip(0) =~= v);
        assert(v.take(0).len() == 0);
        lemma_here(ss, c, d, d, v.take(0));
        (0, n)
    } else {
        assert(n > 0);
        assert(move_(ss, lo, hi, walk(ss, lo, hi, t, n - 1), i, v));
        if exists|j: int| eps(ss, i, j) && #[trigger] walk(ss, lo, hi, t, n - 1)(j, v) {
            let j = choose|j: int| eps(ss, i, j) && #[trigger] walk(ss, lo, hi, t, n - 1)(j, v);
            let r = lemma_leave(ss, c, d, lo, hi, t, n - 1, j, v);
            lemma_eps_step(ss, c, d, d, i, j, v.take(r.0));
            r
        } else {
            let w = v.skip(1);
            let j = ss[i].next_state as int;
            lemma_consts();
            let r = lemma_leave(ss, c, d, lo, hi, t, n - 1, j, w);
            assert(v.take(r.0 + 1).skip(1) =~= w.take(r.0));
            assert(v.take(r.0 + 1)[0] == v[0]);
            assert(v.skip(r.0 + 1) =~= w.skip(r.0));
            lemma_char_step(ss, c, d, d, i, v.take(r.0 + 1));
            (r.0 + 1, r.1)
        }
    }
}
/// Through a part with the language `l`
pub proof fn lemma_through(ss: Seq<State>, c: int, d: int, l: Lang, lo: int, hi: int, t: int, n: int, v: Seq<Char>) -> (r: (int, int))
    requires lo <= c <= d <= hi, frag(ss, c, d, l), !(c <= t < d), walk(ss, lo, hi, t, n)(c, v)
    ensures 0 <= r.0 <= v.len(), l(v.take(r.0)), walk(ss, lo, hi, t, r.1)(d, v.skip(r.0)), r.1 <= n, 0 <= n ==> 0 <= r.1, c < d ==> r.1 < n
{
    let r = lemma_leave(ss, c, d, lo, hi, t, n, c, v);
    assert(l(v.take(r.0)) == walks(ss, c, d, d, c, v.take(r.0)));
    r
}
pub proof fn lemma_into(ss: Seq<State>, c: int, d: int, l: Lang, lo: int, hi: int, t: int, k: int, v: Seq<Char>)
    requires lo <= c <= d <= hi, frag(ss, c, d, l), 0 <= k <= v.len(), l(v.take(k)), walks(ss, lo, hi, t, d, v.skip(k))
    ensures walks(ss, lo, hi, t, c, v)
{
    assert(walks(ss, c, d, d, c, v.take(k)));
    let n = choose|n: int| 0 <= n && #[trigger] walk(ss, c, d, d, n)(c, v.take(k));
    lemma_join(ss, c, d, d, lo, hi, t, n, c, k, v);
}
""")
    return m
