"""What words and sequences of words lead to (specifications and lemmas only)"""
from build import Module


def module():
    m = Module("phrases")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::optimize::*;

/// Does the expression match the word (within its allowance of edits)?
pub open spec fn finds(e: Expression, w: Seq<Char>) -> bool { e.reach(0, w, e.fuzz as int)(e.n() - 1) }
/// Is any state reachable from the first `a` states by `w`?
pub open spec fn live(e: Expression, a: int, w: Seq<Char>) -> bool {
    exists|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] e.reach(s, w, f)(x)
}
/// There is a state left before every symbol that is not ignored
pub open spec fn kept(e: Expression, a: int, w: Seq<Char>) -> bool {
    forall|j: int| 0 <= j < w.len() && !e.skips(w[j]) ==> live(e, a, #[trigger] w.take(j))
}
pub proof fn lemma_more(e: Expression, s: int, w: Seq<Char>, f: int, x: int)
    requires f >= 0, e.reach(s, w, f)(x)
    ensures e.reach(s, w, f + 1)(x)
    decreases w.len(), f
{
    let ss = e.states@;
    let d = w.drop_last();
    if !e.reach0(s, w, f)(x) {
        let u = choose|u: int| #[trigger] e.reach(s, w, f - 1)(u) && step(ss, u, CharBitset::LETTERS, x);
        lemma_more(e, s, w, f - 1, u);
        assert(via(ss, e.reach(s, w, f + 1 - 1), CharBitset::LETTERS, x));
    } else if w.len() == 0 {
        assert(e.reach0(s, w, f + 1)(x));
    } else if e.skips(w.last()) {
        lemma_more(e, s, d, f, x);
        assert(e.reach0(s, w, f + 1)(x));
    } else if via(ss, e.reach(s, d, f), class_of(w.last()), x) {
        let u = choose|u: int| #[trigger] e.reach(s, d, f)(u) && step(ss, u, class_of(w.last()), x);
        lemma_more(e, s, d, f, u);
        assert(via(ss, e.reach(s, d, f + 1), class_of(w.last()), x));
        assert(e.reach0(s, w, f + 1)(x));
    } else if f > 0 && e.reach(s, d, f - 1)(x) {
        lemma_more(e, s, d, f - 1, x);
        assert(e.reach(s, d, f + 1 - 1)(x));
        assert(e.reach0(s, w, f + 1)(x));
    } else {
        let u = choose|u: int| #[trigger] e.reach(s, d, f - 1)(u) && step(ss, u, CharBitset::LETTERS, x);
        lemma_more(e, s, d, f - 1, u);
        assert(via(ss, e.reach(s, d, f + 1 - 1), CharBitset::LETTERS, x));
        assert(e.reach0(s, w, f + 1)(x));
    }
}
pub proof fn lemma_mono(e: Expression, s: int, w: Seq<Char>, f: int, g: int, x: int)
    requires 0 <= f <= g, e.reach(s, w, f)(x)
    ensures e.reach(s, w, g)(x)
    decreases g - f
{
    if f < g { lemma_more(e, s, w, f, x); lemma_mono(e, s, w, f + 1, g, x); }
}
/// What is reachable by a longer word needs something that is reachable by a shorter one
pub proof fn lemma_before(e: Expression, s: int, w: Seq<Char>, f: int, x: int) -> (r: (int, int))
    requires f >= 0, w.len() > 0, e.reach(s, w, f)(x)
    ensures 0 <= r.0 <= f, e.reach(s, w.drop_last(), r.0)(r.1)
    decreases f
{
    let ss = e.states@;
    let d = w.drop_last();
    if !e.reach0(s, w, f)(x) {
        let u = choose|u: int| #[trigger] e.reach(s, w, f - 1)(u) && step(ss, u, CharBitset::LETTERS, x);
        lemma_before(e, s, w, f - 1, u)
    } else if e.skips(w.last()) { (f, x) }
    else if via(ss, e.reach(s, d, f), class_of(w.last()), x) {
        let u = choose|u: int| #[trigger] e.reach(s, d, f)(u) && step(ss, u, class_of(w.last()), x);
        (f, u)
    } else if f > 0 && e.reach(s, d, f - 1)(x) { (f - 1, x) }
    else {
        let u = choose|u: int| #[trigger] e.reach(s, d, f - 1)(u) && step(ss, u, CharBitset::LETTERS, x);
        (f - 1, u)
    }
}
pub proof fn lemma_live(e: Expression, a: int, w: Seq<Char>, j: int)
    requires live(e, a, w), 0 <= j <= w.len()
    ensures live(e, a, w.take(j))
    decreases w.len() - j
{
    if j == w.len() { assert(w.take(j) =~= w); }
    else {
        let (s, f, x) = choose|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] e.reach(s, w, f)(x);
        if w.len() > 0 {
            let r = lemma_before(e, s, w, f, x);
            assert(e.reach(s, w.drop_last(), r.0)(r.1));
            assert(live(e, a, w.drop_last()));
            lemma_live(e, a, w.drop_last(), j);
            assert(w.drop_last().take(j) =~= w.take(j));
        }
    }
}
/// A word that is matched is kept
pub proof fn lemma_kept(e: Expression, a: int, w: Seq<Char>)
    requires live(e, a, w)
    ensures kept(e, a, w)
{
    assert forall|j: int| 0 <= j < w.len() && !e.skips(w[j]) implies live(e, a, #[trigger] w.take(j)) by { lemma_live(e, a, w, j); }
}
/// The table of a word tells whether it is matched
pub proof fn lemma_finds(e: Expression, t: BitSet3D, a: int, w: Seq<Char>)
    requires e.wf(), a >= 1, e.correct(t, a, w)
    ensures finds(e, w) == (exists|f: int| 0 <= f <= e.fuzz && isset(#[trigger] at(t, 0, f), e.n() - 1))
{
    let x = e.n() - 1;
    if finds(e, w) {
        assert(has(t, 0, e.fuzz as int, x));
        let g = choose|g: int| 0 <= g <= e.fuzz && #[trigger] isset(at(t, 0, g), x);
        assert(isset(at(t, 0, g), e.n() - 1));
    }
    if exists|f: int| 0 <= f <= e.fuzz && isset(#[trigger] at(t, 0, f), x) {
        let f = choose|f: int| 0 <= f <= e.fuzz && isset(#[trigger] at(t, 0, f), x);
        lemma_mono(e, 0, w, f, e.fuzz as int, x);
    }
}
// ---- sequences of words

pub proof fn lemma_range(e: Expression, s: int, w: Seq<Char>, f: int, x: int)
    requires e.wf(), f >= 0, 0 <= s < e.n(), e.reach(s, w, f)(x)
    ensures 0 <= x < e.n()
    decreases w.len(), f
{
    let ss = e.states@;
    let d = w.drop_last();
    if !e.reach0(s, w, f)(x) {
        let u = choose|u: int| #[trigger] e.reach(s, w, f - 1)(u) && step(ss, u, CharBitset::LETTERS, x);
        assert(state_wf(ss[u], e.n()));
        assert(state_wf(ss[ss[u].next_state as int], e.n()));
    } else if w.len() == 0 { assert(eps(ss, s, x)); assert(state_wf(ss[s], e.n())); }
    else if e.skips(w.last()) { lemma_range(e, s, d, f, x); }
    else if via(ss, e.reach(s, d, f), class_of(w.last()), x) {
        let u = choose|u: int| #[trigger] e.reach(s, d, f)(u) && step(ss, u, class_of(w.last()), x);
        assert(state_wf(ss[u], e.n()));
        assert(state_wf(ss[ss[u].next_state as int], e.n()));
    } else if f > 0 && e.reach(s, d, f - 1)(x) { lemma_range(e, s, d, f - 1, x); }
    else {
        let u = choose|u: int| #[trigger] e.reach(s, d, f - 1)(u) && step(ss, u, CharBitset::LETTERS, x);
        assert(state_wf(ss[u], e.n()));
        assert(state_wf(ss[ss[u].next_state as int], e.n()));
    }
}
/// What is reachable is closed
pub proof fn lemma_closed(e: Expression, s: int, w: Seq<Char>, f: int, u: int, x: int)
    requires e.wf(), transitive(e.states@), f >= 0, 0 <= s < e.n(), e.reach(s, w, f)(u), eps(e.states@, u, x)
    ensures e.reach(s, w, f)(x)
    decreases w.len(), f
{
    let ss = e.states@;
    let d = w.drop_last();
    lemma_range(e, s, w, f, u);
    if !e.reach0(s, w, f)(u) {
        let y = choose|y: int| #[trigger] e.reach(s, w, f - 1)(y) && step(ss, y, CharBitset::LETTERS, u);
        lemma_step_closed(e, y, CharBitset::LETTERS, u, x);
        assert(via(ss, e.reach(s, w, f - 1), CharBitset::LETTERS, x));
    } else if w.len() == 0 { assert(e.reach0(s, w, f)(x)); }
    else if e.skips(w.last()) { lemma_closed(e, s, d, f, u, x); assert(e.reach0(s, w, f)(x)); }
    else if via(ss, e.reach(s, d, f), class_of(w.last()), u) {
        let y = choose|y: int| #[trigger] e.reach(s, d, f)(y) && step(ss, y, class_of(w.last()), u);
        lemma_step_closed(e, y, class_of(w.last()), u, x);
        assert(via(ss, e.reach(s, d, f), class_of(w.last()), x));
        assert(e.reach0(s, w, f)(x));
    } else if f > 0 && e.reach(s, d, f - 1)(u) { lemma_closed(e, s, d, f - 1, u, x); assert(e.reach0(s, w, f)(x)); }
    else {
        let y = choose|y: int| #[trigger] e.reach(s, d, f - 1)(y) && step(ss, y, CharBitset::LETTERS, u);
        lemma_step_closed(e, y, CharBitset::LETTERS, u, x);
        assert(via(ss, e.reach(s, d, f - 1), CharBitset::LETTERS, x));
        assert(e.reach0(s, w, f)(x));
    }
}
proof fn lemma_step_closed(e: Expression, y: int, cls: CharBitset, u: int, x: int)
    requires e.wf(), transitive(e.states@), step(e.states@, y, cls, u), eps(e.states@, u, x)
    ensures step(e.states@, y, cls, x)
{
    assert(state_wf(e.states@[y], e.n()));
    assert(state_wf(e.states@[e.states@[y].next_state as int], e.n()));
    assert(0 <= u < e.n());
    assert(eps(e.states@, e.states@[y].next_state as int, u));
}
/// A word after another
pub proof fn lemma_join(e: Expression, s: int, v: Seq<Char>, g: int, u: int, w: Seq<Char>, h: int, x: int)
    requires e.wf(), transitive(e.states@), g >= 0, h >= 0, 0 <= s < e.n(), e.reach(s, v, g)(u), e.reach(u, w, h)(x)
    ensures e.reach(s, v + w, g + h)(x)
    decreases w.len(), h
{
    let ss = e.states@;
    let vw = v + w;
    let d = w.drop_last();
    let f = g + h;
    lemma_range(e, s, v, g, u);
    if w.len() > 0 { assert(vw.drop_last() =~= v + d); assert(vw.last() == w.last()); } else { assert(vw =~= v); }
    if !e.reach0(u, w, h)(x) {
        let y = choose|y: int| #[trigger] e.reach(u, w, h - 1)(y) && step(ss, y, CharBitset::LETTERS, x);
        lemma_join(e, s, v, g, u, w, h - 1, y);
        assert(e.reach(s, vw, f - 1)(y));
        assert(via(ss, e.reach(s, vw, f - 1), CharBitset::LETTERS, x));
    } else if w.len() == 0 {
        assert(eps(ss, u, x));
        lemma_closed(e, s, v, g, u, x);
        lemma_mono(e, s, v, g, f, x);
    } else if e.skips(w.last()) {
        lemma_join(e, s, v, g, u, d, h, x);
        assert(e.reach0(s, vw, f)(x));
    } else if via(ss, e.reach(u, d, h), class_of(w.last()), x) {
        let y = choose|y: int| #[trigger] e.reach(u, d, h)(y) && step(ss, y, class_of(w.last()), x);
        lemma_join(e, s, v, g, u, d, h, y);
        assert(via(ss, e.reach(s, v + d, f), class_of(w.last()), x));
        assert(e.reach0(s, vw, f)(x));
    } else if h > 0 && e.reach(u, d, h - 1)(x) {
        lemma_join(e, s, v, g, u, d, h - 1, x);
        assert(e.reach(s, v + d, f - 1)(x));
        assert(e.reach0(s, vw, f)(x));
    } else {
        let y = choose|y: int| #[trigger] e.reach(u, d, h - 1)(y) && step(ss, y, CharBitset::LETTERS, x);
        lemma_join(e, s, v, g, u, d, h - 1, y);
        assert(e.reach(s, v + d, f - 1)(y));
        assert(via(ss, e.reach(s, v + d, f - 1), CharBitset::LETTERS, x));
        assert(e.reach0(s, vw, f)(x));
    }
}
/// A word that leads somewhere can be cut anywhere
pub proof fn lemma_split(e: Expression, s: int, v: Seq<Char>, w: Seq<Char>, f: int, x: int) -> (r: (int, int))
    requires e.wf(), transitive(e.states@), f >= 0, 0 <= s < e.n(), e.reach(s, v + w, f)(x)
    ensures 0 <= r.0 <= f, e.reach(s, v, r.0)(r.1), e.reach(r.1, w, f - r.0)(x)
    decreases w.len(), f
{
    let ss = e.states@;
    let vw = v + w;
    let d = w.drop_last();
    lemma_range(e, s, vw, f, x);
    if w.len() == 0 {
        assert(vw =~= v);
        assert(eps(ss, x, x));
        assert(e.reach0(x, w, 0)(x));
        (f, x)
    } else {
        assert(vw.drop_last() =~= v + d); assert(vw.last() == w.last());
        if !e.reach0(s, vw, f)(x) {
            let y = choose|y: int| #[trigger] e.reach(s, vw, f - 1)(y) && step(ss, y, CharBitset::LETTERS, x);
            let r = lemma_split(e, s, v, w, f - 1, y);
            assert(e.reach(r.1, w, f - 1 - r.0)(y));
            assert(via(ss, e.reach(r.1, w, (f - r.0) - 1), CharBitset::LETTERS, x));
            r
        } else if e.skips(w.last()) {
            let r = lemma_split(e, s, v, d, f, x);
            assert(e.reach0(r.1, w, f - r.0)(x));
            r
        } else if via(ss, e.reach(s, v + d, f), class_of(w.last()), x) {
            let y = choose|y: int| #[trigger] e.reach(s, v + d, f)(y) && step(ss, y, class_of(w.last()), x);
            let r = lemma_split(e, s, v, d, f, y);
            assert(via(ss, e.reach(r.1, d, f - r.0), class_of(w.last()), x));
            assert(e.reach0(r.1, w, f - r.0)(x));
            r
        } else if f > 0 && e.reach(s, v + d, f - 1)(x) {
            let r = lemma_split(e, s, v, d, f - 1, x);
            assert(e.reach(r.1, d, (f - r.0) - 1)(x));
            assert(e.reach0(r.1, w, f - r.0)(x));
            r
        } else {
            let y = choose|y: int| #[trigger] e.reach(s, v + d, f - 1)(y) && step(ss, y, CharBitset::LETTERS, x);
            let r = lemma_split(e, s, v, d, f - 1, y);
            assert(e.reach(r.1, d, (f - r.0) - 1)(y));
            assert(via(ss, e.reach(r.1, d, (f - r.0) - 1), CharBitset::LETTERS, x));
            assert(e.reach0(r.1, w, f - r.0)(x));
            r
        }
    }
}
// ---- two-dimensional tables: rows of `k` blocks

pub open spec fn rows(s: Seq<u32>, k: int, f: int) -> Seq<u32> { s.subrange(k * f, k * f + k) }
/// `b` rows for sets of at least `n` elements
pub open spec fn dims_ref(s: Seq<u32>, k: int, b: int, n: int) -> bool { k >= blocks_for(n) >= 1 && b >= 1 && k * b <= s.len() <= usize::MAX && b < usize::MAX && k * 32 <= usize::MAX }
pub proof fn lemma_rows_fit(s: Seq<u32>, k: int, b: int, n: int, f: int)
    requires dims_ref(s, k, b, n), 0 <= f < b
    ensures 0 <= k * f, k * f + k == k * (f + 1), k * (f + 1) <= s.len(), rows(s, k, f).len() == k
{
    assert(k * (f + 1) == k * f + k) by (nonlinear_arith);
    assert(0 <= k * f) by (nonlinear_arith) requires 0 <= k, 0 <= f;
    assert(k * (f + 1) <= k * b) by (nonlinear_arith) requires 0 <= k, f + 1 <= b;
}
pub proof fn lemma_rows_splice(s: Seq<u32>, k: int, b: int, n: int, f: int, x: Seq<u32>)
    requires dims_ref(s, k, b, n), 0 <= f < b, x.len() == k
    ensures splice(s, k * f, x).len() == s.len(), dims_ref(splice(s, k * f, x), k, b, n), rows(splice(s, k * f, x), k, f) == x,
        forall|g: int| 0 <= g < b && g != f ==> #[trigger] rows(splice(s, k * f, x), k, g) == rows(s, k, g)
{
    lemma_rows_fit(s, k, b, n, f);
    let u = splice(s, k * f, x);
    assert(rows(u, k, f) =~= x);
    assert forall|g: int| 0 <= g < b && g != f implies #[trigger] rows(u, k, g) == rows(s, k, g) by {
        lemma_rows_fit(s, k, b, n, g);
        lemma_apart(k, g, f);
        assert(rows(u, k, g) =~= rows(s, k, g));
    }
}
pub proof fn lemma_rows_spliced(s: Seq<u32>, u: Seq<u32>, k: int, b: int, n: int, f: int)
    requires dims_ref(s, k, b, n), 0 <= f < b, exists|x: Seq<u32>| x.len() == k && u == #[trigger] splice(s, k * f, x)
    ensures u.len() == s.len(), forall|x: Seq<u32>| x.len() == k && u == #[trigger] splice(s, k * f, x) ==> rows(u, k, f) == x, forall|g: int| 0 <= g < b && g != f ==> #[trigger] rows(u, k, g) == rows(s, k, g)
{
    let x = choose|x: Seq<u32>| x.len() == k && u == #[trigger] splice(s, k * f, x);
    lemma_rows_splice(s, k, b, n, f, x);
    assert forall|x: Seq<u32>| x.len() == k && u == #[trigger] splice(s, k * f, x) implies rows(u, k, f) == x by { lemma_rows_splice(s, k, b, n, f, x); }
}
/// The rows are those of the states which `v` leads to. (A state may be left out of a row if it is in one with fewer edits)
pub open spec fn tells(e: Expression, s: Seq<u32>, k: int, v: Seq<Char>) -> bool {
    &&& forall|f: int, x: int| 0 <= f <= e.fuzz && #[trigger] isset(rows(s, k, f), x) ==> e.reach(0, v, f)(x)
    &&& forall|f: int, x: int| 0 <= f <= e.fuzz && #[trigger] e.reach(0, v, f)(x) ==> exists|g: int| 0 <= g <= f && isset(#[trigger] rows(s, k, g), x)
}
/// One of the states in the rows `s` leads to `x` by the table `t`
pub open spec fn through(t: BitSet3D, s: Seq<u32>, k: int, f: int, x: int) -> bool {
    exists|g: int, d: int| 0 <= g <= f && #[trigger] isset(rows(s, k, g), d) && isset(at(t, d, f - g), x)
}
/// All that the rows `s` lead to by the table `t` has been added to `u0`
pub open spec fn stepped(t: BitSet3D, b: int, s: Seq<u32>, k: int, u0: Seq<u32>, u: Seq<u32>, l: int) -> bool {
    forall|f: int, x: int| 0 <= f < b ==> #[trigger] isset(rows(u, l, f), x) == (isset(rows(u0, l, f), x) || through(t, s, k, f, x))
}
pub proof fn lemma_tells(e: Expression, t: BitSet3D, s: Seq<u32>, k: int, u0: Seq<u32>, u: Seq<u32>, l: int, v: Seq<Char>, w: Seq<Char>)
    requires e.wf(), transitive(e.states@), tells(e, s, k, v), e.correct(t, e.n() as int, w), stepped(t, e.fuzz + 1, s, k, u0, u, l),
        forall|f: int| 0 <= f <= e.fuzz ==> no_bits(#[trigger] rows(u0, l, f))
    ensures tells(e, u, l, v + w)
{
    assert forall|f: int, x: int| 0 <= f <= e.fuzz && #[trigger] isset(rows(u, l, f), x) implies e.reach(0, v + w, f)(x) by {
        assert(no_bits(rows(u0, l, f)));
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] isset(rows(s, k, g), d) && isset(at(t, d, f - g), x);
        assert(e.reach(0, v, g)(d));
        lemma_range(e, 0, v, g, d);
        assert(e.reach(d, w, f - g)(x));
        lemma_join(e, 0, v, g, d, w, f - g, x);
    }
    assert forall|f: int, x: int| 0 <= f <= e.fuzz && #[trigger] e.reach(0, v + w, f)(x) implies exists|g: int| 0 <= g <= f && isset(#[trigger] rows(u, l, g), x) by {
        let r = lemma_split(e, 0, v, w, f, x);
        let d = r.1;
        lemma_range(e, 0, v, r.0, d);
        let g = choose|g: int| 0 <= g <= r.0 && isset(#[trigger] rows(s, k, g), d);
        assert(has(t, d, f - r.0, x));
        let h = choose|h: int| 0 <= h <= f - r.0 && #[trigger] isset(at(t, d, h), x);
        assert(isset(at(t, d, (g + h) - g), x));
        assert(through(t, s, k, g + h, x));
        assert(isset(rows(u, l, g + h), x));
    }
}
/// The rows of the sequence tell whether it is matched
pub proof fn lemma_tells_finds(e: Expression, s: Seq<u32>, k: int, v: Seq<Char>)
    requires e.wf(), tells(e, s, k, v)
    ensures finds(e, v) == (exists|f: int| 0 <= f <= e.fuzz && isset(#[trigger] rows(s, k, f), e.n() - 1))
{
    let x = e.n() - 1;
    if finds(e, v) { assert(e.reach(0, v, e.fuzz as int)(x)); }
    if exists|f: int| 0 <= f <= e.fuzz && isset(#[trigger] rows(s, k, f), x) {
        let f = choose|f: int| 0 <= f <= e.fuzz && isset(#[trigger] rows(s, k, f), x);
        lemma_mono(e, 0, v, f, e.fuzz as int, x);
    }
}
/// The symbols of the words, one after the other
pub open spec fn joined(ws: Seq<Seq<Char>>) -> Seq<Char>
    decreases ws.len()
{
    if ws.len() == 0 { Seq::empty() } else { joined(ws.drop_last()) + ws.last() }
}
/// The rows before the first word
pub open spec fn starting(e: Expression, s: Seq<u32>, k: int) -> bool {
    &&& isset(rows(s, k, 0), 0) && (forall|x: int| #[trigger] isset(rows(s, k, 0), x) ==> eps(e.states@, 0, x))
    &&& forall|f: int| 0 < f <= e.fuzz ==> no_bits(#[trigger] rows(s, k, f))
}
pub proof fn lemma_tells_first(e: Expression, t: BitSet3D, s: Seq<u32>, k: int, u0: Seq<u32>, u: Seq<u32>, l: int, w: Seq<Char>)
    requires e.wf(), transitive(e.states@), starting(e, s, k), e.correct(t, e.n() as int, w), stepped(t, e.fuzz + 1, s, k, u0, u, l),
        forall|f: int| 0 <= f <= e.fuzz ==> no_bits(#[trigger] rows(u0, l, f))
    ensures tells(e, u, l, w)
{
    let z = Seq::<Char>::empty();
    assert(z + w =~= w);
    assert forall|f: int, x: int| 0 <= f <= e.fuzz && #[trigger] isset(rows(u, l, f), x) implies e.reach(0, w, f)(x) by {
        assert(no_bits(rows(u0, l, f)));
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] isset(rows(s, k, g), d) && isset(at(t, d, f - g), x);
        if g > 0 { assert(no_bits(rows(s, k, g))); }
        assert(e.reach0(0, z, 0)(d));
        assert(e.reach(0, z, 0)(d));
        lemma_range(e, 0, z, 0, d);
        assert(e.reach(d, w, f)(x));
        lemma_join(e, 0, z, 0, d, w, f, x);
    }
    assert forall|f: int, x: int| 0 <= f <= e.fuzz && #[trigger] e.reach(0, w, f)(x) implies exists|g: int| 0 <= g <= f && isset(#[trigger] rows(u, l, g), x) by {
        assert(has(t, 0, f, x));
        let h = choose|h: int| 0 <= h <= f && #[trigger] isset(at(t, 0, h), x);
        assert(isset(at(t, 0, h - 0), x));
        assert(through(t, s, k, h, x));
        assert(isset(rows(u, l, h), x));
    }
}
/// One table of rows for each word of a phrase, each made from the one before
pub open spec fn chain(e: Expression, ts: Seq<BitSet3D>, ss: Seq<Seq<u32>>, us: Seq<Seq<u32>>, k: int) -> bool {
    &&& ss.len() == ts.len() + 1 && us.len() == ts.len() && starting(e, ss[0], k)
    &&& forall|i: int, f: int| 0 <= i < ts.len() && 0 <= f <= e.fuzz ==> no_bits(#[trigger] rows(us[i], k, f))
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] stepped(ts[i], e.fuzz + 1, ss[i], k, us[i], ss[i + 1], k)
}
/// The last state is in the rows of the last word of a phrase exactly if the expression matches the words written one after the other
pub proof fn lemma_phrase(e: Expression, ws: Seq<Seq<Char>>, ts: Seq<BitSet3D>, ss: Seq<Seq<u32>>, us: Seq<Seq<u32>>, k: int)
    requires e.wf(), transitive(e.states@), ws.len() == ts.len() >= 1, chain(e, ts, ss, us, k), forall|i: int| 0 <= i < ws.len() ==> e.correct(#[trigger] ts[i], e.n() as int, ws[i])
    ensures tells(e, ss.last(), k, joined(ws)), finds(e, joined(ws)) == (exists|f: int| 0 <= f <= e.fuzz && isset(#[trigger] rows(ss.last(), k, f), e.n() - 1))
    decreases ws.len()
{
    let m = ws.len() - 1;
    assert forall|f: int| 0 <= f <= e.fuzz implies no_bits(#[trigger] rows(us[m], k, f)) by {}
    assert(stepped(ts[m], e.fuzz + 1, ss[m], k, us[m], ss[m + 1], k));
    assert(e.correct(ts[m], e.n() as int, ws[m]));
    if m == 0 {
        lemma_tells_first(e, ts[0], ss[0], k, us[0], ss[1], k, ws[0]);
        assert(joined(ws.drop_last()) =~= Seq::<Char>::empty());
        assert(joined(ws) =~= ws[0]);
    } else {
        let ws0 = ws.drop_last();
        assert(chain(e, ts.drop_last(), ss.drop_last(), us.drop_last(), k)) by {
            assert forall|i: int| 0 <= i < ts.len() - 1 implies #[trigger] stepped(ts.drop_last()[i], e.fuzz + 1, ss.drop_last()[i], k, us.drop_last()[i], ss.drop_last()[i + 1], k) by { assert(stepped(ts[i], e.fuzz + 1, ss[i], k, us[i], ss[i + 1], k)); }
            assert forall|i: int, f: int| 0 <= i < ts.len() - 1 && 0 <= f <= e.fuzz implies no_bits(#[trigger] rows(us.drop_last()[i], k, f)) by { assert(no_bits(rows(us[i], k, f))); }
        }
        assert forall|i: int| 0 <= i < ws0.len() implies e.correct(#[trigger] ts.drop_last()[i], e.n() as int, ws0[i]) by { assert(e.correct(ts[i], e.n() as int, ws[i])); }
        lemma_phrase(e, ws0, ts.drop_last(), ss.drop_last(), us.drop_last(), k);
        lemma_tells(e, ts[m], ss[m], k, us[m], ss[m + 1], k, joined(ws0), ws[m]);
    }
    lemma_tells_finds(e, ss.last(), k, joined(ws));
}
""")
    return m
