"""The order in which phrases are tried"""
from build import Module, struct


def module():
    m = Module("search", "matcher.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;

pub type PhraseDepth = usize;
""")
    struct(m, "SearchPhase")
    m.text(r"""
// ---- which phrases lead to the last state

impl PhraseMatcher {
    /// The table of a word (by its index)
    pub open spec fn table(self, w: int) -> BitSet3D { self.classes.keys()[self.word_classes@[w] as int] }
    /// The states that the words lead to, with the number of edits
    pub open spec fn reaches(self, c: Seq<int>) -> spec_fn(int, int) -> bool
        decreases c.len()
    {
        if c.len() == 0 { |f: int, x: int| f == 0 && isset(self.start_states.blocks@, x) }
        else { |f: int, x: int| exists|g: int, d: int| 0 <= g <= f && #[trigger] self.reaches(c.drop_last())(g, d) && isset(at(self.table(c.last()), d, f - g), x) }
    }
    pub open spec fn accepts(self, c: Seq<int>) -> bool { exists|f: int| 0 <= f < self.fuzz_limit && #[trigger] self.reaches(c)(f, self.states_len - 1) }
    pub open spec fn viable(self, c: Seq<int>) -> bool { exists|f: int, x: int| 0 <= f < self.fuzz_limit && #[trigger] self.reaches(c)(f, x) }
    /// In the search for phrases of `n` words
    #[verifier::opaque]
    pub open spec fn searching(self, n: int) -> bool {
        &&& self.ok() && self.word_classes@.len() == n && self.states_len >= 1 && self.fuzz_limit >= 1
        &&& forall|w: int| 0 <= w < n ==> 0 < #[trigger] self.word_classes@[w] < self.classes.keys().len()
        &&& forall|w: int, d: int, f: int, x: int| 0 <= w < n && 0 <= d < self.states_len && 0 <= f < self.fuzz_limit && #[trigger] isset(at(self.table(w), d, f), x) ==> x < self.states_len
        &&& forall|x: int| #[trigger] isset(self.start_states.blocks@, x) ==> x < self.states_len
    }
}
/// The rows of a matcher
#[verifier::opaque]
pub open spec fn holds(s: Seq<u32>, k: int, pm: PhraseMatcher, c: Seq<int>) -> bool {
    forall|f: int, x: int| 0 <= f < pm.fuzz_limit ==> #[trigger] isset(rows(s, k, f), x) == pm.reaches(c)(f, x)
}
pub open spec fn within(c: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < n }
pub proof fn lemma_reaches_range(pm: PhraseMatcher, c: Seq<int>, n: int, f: int, x: int)
    requires pm.searching(n), within(c, n), pm.reaches(c)(f, x), 0 <= f < pm.fuzz_limit
    ensures 0 <= x < pm.states_len
    decreases c.len()
{
    reveal(PhraseMatcher::searching);
    if c.len() > 0 {
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] pm.reaches(c.drop_last())(g, d) && isset(at(pm.table(c.last()), d, f - g), x);
        assert(within(c.drop_last(), n));
        lemma_reaches_range(pm, c.drop_last(), n, g, d);
        assert(0 <= c[c.len() - 1] < n);
        assert(isset(at(pm.table(c.last()), d, f - g), x));
    } else { assert(isset(pm.start_states.blocks@, x)); }
}
pub proof fn lemma_holds(s: Seq<u32>, k: int, pm: PhraseMatcher, c: Seq<int>, w: int, u0: Seq<u32>, u: Seq<u32>, l: int)
    requires holds(s, k, pm, c), stepped(pm.table(w), pm.fuzz_limit as int, s, k, u0, u, l), forall|f: int| 0 <= f < pm.fuzz_limit ==> no_bits(#[trigger] rows(u0, l, f))
    ensures holds(u, l, pm, c.push(w))
{
    reveal(holds);
    let d = c.push(w);
    assert(d.drop_last() =~= c);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(u, l, f), x) == pm.reaches(d)(f, x) by {
        assert(no_bits(rows(u0, l, f)));
        let t = pm.table(w);
        assert(isset(rows(u, l, f), x) == (isset(rows(u0, l, f), x) || through(t, s, k, f, x)));
        if through(t, s, k, f, x) {
            let (g, y) = choose|g: int, y: int| 0 <= g <= f && #[trigger] isset(rows(s, k, g), y) && isset(at(t, y, f - g), x);
            assert(pm.reaches(d.drop_last())(g, y));
        }
        if pm.reaches(d)(f, x) {
            let (g, y) = choose|g: int, y: int| 0 <= g <= f && #[trigger] pm.reaches(d.drop_last())(g, y) && isset(at(pm.table(d.last()), y, f - g), x);
            assert(isset(rows(s, k, g), y));
        }
    }
}
/// What leads nowhere leads nowhere with more words
pub proof fn lemma_viable(pm: PhraseMatcher, c: Seq<int>, k: int)
    requires 0 <= k <= c.len(), pm.viable(c)
    ensures pm.viable(c.take(k))
    decreases c.len() - k
{
    if k < c.len() {
        lemma_viable(pm, c, k + 1);
        let d = c.take(k + 1);
        assert(d.drop_last() =~= c.take(k));
        let (f, x) = choose|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.reaches(d)(f, x);
        let (g, y) = choose|g: int, y: int| 0 <= g <= f && #[trigger] pm.reaches(d.drop_last())(g, y) && isset(at(pm.table(d.last()), y, f - g), x);
        assert(pm.reaches(c.take(k))(g, y));
    } else { assert(c.take(k) =~= c); }
}
#[verifier::opaque]
pub open spec fn all_accept(ms: Seq<PhraseMatcher>, c: Seq<int>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).accepts(c) }
#[verifier::opaque]
pub open spec fn all_viable(ms: Seq<PhraseMatcher>, c: Seq<int>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).viable(c) }
pub proof fn lemma_all_viable(ms: Seq<PhraseMatcher>, c: Seq<int>, k: int)
    requires 0 <= k <= c.len(), all_accept(ms, c)
    ensures all_viable(ms, c.take(k))
{
    reveal(all_accept); reveal(all_viable);
    assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).viable(c.take(k)) by {
        assert(ms[i].accepts(c));
        let f = choose|f: int| 0 <= f < ms[i].fuzz_limit && #[trigger] ms[i].reaches(c)(f, ms[i].states_len - 1);
        assert(ms[i].viable(c));
        lemma_viable(ms[i], c, k);
    }
}

// ---- what is to be done

pub open spec fn tranche_of(wl: Seq<&Word>, i: int) -> int { wl[i].tranche as int }
/// The class of the rarest word
pub open spec fn rarest(wl: Seq<&Word>, c: Seq<int>) -> int
    decreases c.len()
{
    if c.len() == 0 { 0 } else if rarest(wl, c.drop_last()) >= tranche_of(wl, c.last()) { rarest(wl, c.drop_last()) } else { tranche_of(wl, c.last()) }
}
pub open spec fn sorted(wl: Seq<&Word>) -> bool { forall|i: int, j: int| 0 <= i <= j < wl.len() ==> #[trigger] tranche_of(wl, i) <= #[trigger] tranche_of(wl, j) }
/// In the order of the search (a phrase comes before those it is the beginning of)
pub open spec fn before(c: Seq<int>, cur: Seq<int>) -> bool { exists|k: int| 0 <= k < cur.len() && k < c.len() && c.take(k) == cur.take(k) && #[trigger] c[k] < cur[k] }
/// The words are of the classes up to `t`
pub open spec fn allowed(wl: Seq<&Word>, t: int, c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < wl.len() && tranche_of(wl, c[i]) <= t }
pub proof fn lemma_rarest(wl: Seq<&Word>, c: Seq<int>, t: int)
    requires within(c, wl.len() as int)
    ensures c.len() > 0 ==> (allowed(wl, t, c) == (rarest(wl, c) <= t)), 0 <= rarest(wl, c) <= 255
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        assert(within(d, wl.len() as int));
        lemma_rarest(wl, d, t);
        assert(0 <= c[c.len() - 1] < wl.len());
        if rarest(wl, c) <= t {
            assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < wl.len() && tranche_of(wl, c[i]) <= t by { if i < d.len() { assert(d[i] == c[i]); assert(allowed(wl, t, d)); } }
        }
        if allowed(wl, t, c) {
            assert(allowed(wl, t, d)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < wl.len() && tranche_of(wl, d[i]) <= t by { assert(d[i] == c[i]); } }
            assert(tranche_of(wl, c[c.len() - 1]) <= t);
            if d.len() == 0 { assert(rarest(wl, d) == 0); assert(tranche_of(wl, c.last()) >= 0); }
        }
    }
}
pub open spec fn belongs(wl: Seq<&Word>, p: SearchPhase, c: Seq<int>) -> bool { c.len() == p.depth && within(c, wl.len() as int) && rarest(wl, c) == p.tranche }
/// Phrases that have not been tried yet
pub open spec fn todo(wl: Seq<&Word>, q: Seq<SearchPhase>, cur: Seq<int>, c: Seq<int>) -> bool {
    exists|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur))
}
/// In the order of the search, or beginning with `b`
pub open spec fn beyond(c: Seq<int>, b: Seq<int>) -> bool { before(c, b) || (b.len() <= c.len() && c.take(b.len() as int) == b) }
/// Phrases that have not been tried after those that begin with `b`
pub open spec fn todo_after(wl: Seq<&Word>, q: Seq<SearchPhase>, b: Seq<int>, c: Seq<int>) -> bool {
    exists|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, b))
}
pub open spec fn distinct(q: Seq<SearchPhase>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i].depth != (#[trigger] q[j]).depth || q[i].tranche != q[j].tranche }
pub open spec fn queue_ok(wl: Seq<&Word>, q: Seq<SearchPhase>, layers: int) -> bool {
    distinct(q) && forall|i: int| 0 <= i < q.len() ==> 2 <= (#[trigger] q[i]).depth < layers && tranche_of(wl, 0) <= q[i].tranche
}
/// What is left to be reported: what was left before, without the phrase that has been found
#[verifier::opaque]
pub open spec fn left(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, cur: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>) -> bool {
    forall|c: Seq<int>| #[trigger] all_accept(ms, c) ==> (todo(wl, q, cur, c) == (todo(wl, q0, cur0, c) && hit != Some(c)))
}
#[verifier::opaque]
pub open spec fn left_after(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, b: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>) -> bool {
    forall|c: Seq<int>| #[trigger] all_accept(ms, c) ==> (todo_after(wl, q, b, c) == (todo(wl, q0, cur0, c) && hit != Some(c)))
}
/// None of the phrases of `d` words before leads anywhere
#[verifier::opaque]
pub open spec fn none_before(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, p: SearchPhase, cur: Seq<int>) -> bool {
    forall|c: Seq<int>| c.len() == p.depth && #[trigger] allowed(wl, p.tranche as int, c) && before(c, cur) ==> !all_viable(ms, c)
}
#[verifier::opaque]
pub open spec fn none_beyond(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, p: SearchPhase, b: Seq<int>) -> bool {
    forall|c: Seq<int>| c.len() == p.depth && #[trigger] allowed(wl, p.tranche as int, c) && beyond(c, b) ==> !all_viable(ms, c)
}
pub proof fn lemma_belongs(wl: Seq<&Word>, p: SearchPhase, c: Seq<int>)
    requires belongs(wl, p, c)
    ensures allowed(wl, p.tranche as int, c)
{ lemma_rarest(wl, c, p.tranche as int); }
proof fn lemma_push0(c: Seq<int>, cur: Seq<int>)
    requires cur.len() < c.len() ==> c[cur.len() as int] >= 0
    ensures before(c, cur.push(0)) == before(c, cur)
{
    let d = cur.push(0);
    if before(c, cur) {
        let k = choose|k: int| 0 <= k < cur.len() && k < c.len() && c.take(k) == cur.take(k) && #[trigger] c[k] < cur[k];
        assert(d.take(k) =~= cur.take(k));
        assert(c[k] < d[k]);
    }
    if before(c, d) {
        let k = choose|k: int| 0 <= k < d.len() && k < c.len() && c.take(k) == d.take(k) && #[trigger] c[k] < d[k];
        assert(d.take(k) =~= cur.take(k));
        assert(c[k] < cur[k]);
    }
}
proof fn lemma_successor(c: Seq<int>, b: Seq<int>)
    requires c.len() >= b.len() >= 1
    ensures before(c, b.drop_last().push(b.last() + 1)) == beyond(c, b)
{
    let d = b.drop_last().push(b.last() + 1);
    let l = b.len() - 1;
    if before(c, d) {
        let k = choose|k: int| 0 <= k < d.len() && k < c.len() && c.take(k) == d.take(k) && #[trigger] c[k] < d[k];
        assert(d.take(k) =~= b.take(k));
        if c[k] < b[k] { assert(before(c, b)); } else { assert(k == l); assert(c.take(l + 1) =~= c.take(l).push(c[l])); assert(b =~= b.take(l).push(b[l])); }
    }
    if before(c, b) {
        let k = choose|k: int| 0 <= k < b.len() && k < c.len() && c.take(k) == b.take(k) && #[trigger] c[k] < b[k];
        assert(d.take(k) =~= b.take(k));
        assert(c[k] < d[k]);
    } else if c.take(l + 1) == b {
        assert(c.take(l) =~= c.take(l + 1).take(l));
        assert(d.take(l) =~= b.take(l));
        assert(c[l] == c.take(l + 1)[l]);
        assert(c[l] < d[l]);
    }
}
proof fn lemma_parent(wl: Seq<&Word>, t: int, c: Seq<int>, b: Seq<int>)
    requires c.len() >= b.len() >= 1, allowed(wl, t, c), sorted(wl), 0 <= b.last(), b.last() + 1 >= wl.len() || tranche_of(wl, b.last() + 1) > t
    ensures beyond(c, b) == beyond(c, b.drop_last())
{
    let d = b.drop_last();
    let l = b.len() - 1;
    if before(c, b) {
        let k = choose|k: int| 0 <= k < b.len() && k < c.len() && c.take(k) == b.take(k) && #[trigger] c[k] < b[k];
        if k < l { assert(d.take(k) =~= b.take(k)); assert(c[k] < d[k]); } else { assert(b.take(l) =~= d); }
    } else if c.take(l + 1) == b { assert(c.take(l) =~= c.take(l + 1).take(l)); assert(b.take(l) =~= d); }
    if before(c, d) {
        let k = choose|k: int| 0 <= k < d.len() && k < c.len() && c.take(k) == d.take(k) && #[trigger] c[k] < d[k];
        assert(d.take(k) =~= b.take(k)); assert(c[k] < b[k]);
    } else if c.take(l) == d {
        assert(b.take(l) =~= d);
        assert(tranche_of(wl, c[l]) <= t);
        if c[l] > b[l] { assert(tranche_of(wl, b[l] + 1) <= tranche_of(wl, c[l])); }
        if c[l] == b[l] { assert(c.take(l + 1) =~= c.take(l).push(c[l])); assert(b =~= d.push(b[l])); }
    }
}
pub proof fn lemma_left(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, cur: Seq<int>)
    ensures left(ms, wl, q, cur, q, cur, None)
{ reveal(left); }
/// One word more
pub proof fn lemma_descend(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, cur: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>, pm: bool)
    requires left(ms, wl, q, cur, q0, cur0, hit), q.len() > 0, !pm ==> none_before(ms, wl, q[0], cur)
    ensures left(ms, wl, q, cur.push(0), q0, cur0, hit), !pm ==> none_before(ms, wl, q[0], cur.push(0))
{
    reveal(left); reveal(none_before);
    assert forall|c: Seq<int>| #[trigger] all_accept(ms, c) implies (todo(wl, q, cur.push(0), c) == (todo(wl, q0, cur0, c) && hit != Some(c))) by {
        if todo(wl, q, cur, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur));
            lemma_push0(c, cur);
            assert(belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur.push(0))));
        }
        if todo(wl, q, cur.push(0), c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur.push(0)));
            lemma_push0(c, cur);
            assert(belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur)));
        }
    }
    assert forall|c: Seq<int>| !pm && c.len() == q[0].depth && #[trigger] allowed(wl, q[0].tranche as int, c) && before(c, cur.push(0)) implies !all_viable(ms, c) by { lemma_push0(c, cur); }
}
/// A phrase has been tried that is complete, or leads nowhere
pub proof fn lemma_tried(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, cur: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>, pm0: bool, pm: bool)
    requires left(ms, wl, q, cur, q0, cur0, None), q.len() > 0, distinct(q), allowed(wl, q[0].tranche as int, cur), cur.len() <= q[0].depth,
        cur.len() < q[0].depth ==> !all_viable(ms, cur) && hit is None,
        cur.len() == q[0].depth ==> hit == (if all_accept(ms, cur) && rarest(wl, cur) == q[0].tranche { Some(cur) } else { None }),
        !pm0 ==> none_before(ms, wl, q[0], cur), !pm ==> !pm0 && !all_viable(ms, cur)
    ensures left_after(ms, wl, q, cur, q0, cur0, hit), hit is Some ==> todo(wl, q0, cur0, hit->0) && all_accept(ms, hit->0), !pm ==> none_beyond(ms, wl, q[0], cur)
{
    reveal(left); reveal(left_after); reveal(none_before); reveal(none_beyond);
    let l = cur.len() as int;
    assert forall|c: Seq<int>| !pm && c.len() == q[0].depth && #[trigger] allowed(wl, q[0].tranche as int, c) && beyond(c, cur) implies !all_viable(ms, c) by {
        if !before(c, cur) && all_viable(ms, c) { lemma_viable_all(ms, c, l); }
    }
    if hit is Some {
        assert(belongs(wl, q[0], cur));
        assert(!before(cur, cur));
        assert(todo(wl, q, cur, cur));
    }
    assert forall|c: Seq<int>| #[trigger] all_accept(ms, c) implies (todo_after(wl, q, cur, c) == (todo(wl, q0, cur0, c) && hit != Some(c))) by {
        assert(todo(wl, q, cur, c) == todo(wl, q0, cur0, c));
        if todo_after(wl, q, cur, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, cur));
            assert(belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur)));
            assert(todo(wl, q, cur, c));
            if hit == Some(c) {
                assert(belongs(wl, q[0], c));
                assert(c.take(l) =~= cur);
                if i > 0 { assert(q[0].depth != q[i].depth || q[0].tranche != q[i].tranche); }
            }
        }
        if todo(wl, q, cur, c) && hit != Some(c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !before(c, cur));
            if i == 0 && beyond(c, cur) {
                assert(c.take(l) == cur);
                if l < q[0].depth { lemma_all_viable(ms, c, l); } else { assert(c.take(l) =~= c); }
            }
            assert(belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, cur)));
        }
    }
}
proof fn lemma_viable_all(ms: Seq<PhraseMatcher>, c: Seq<int>, k: int)
    requires 0 <= k <= c.len(), all_viable(ms, c)
    ensures all_viable(ms, c.take(k))
{
    reveal(all_viable);
    assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).viable(c.take(k)) by { lemma_viable(ms[i], c, k); }
}
/// The next word
pub proof fn lemma_next_word(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, b: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>, pm: bool)
    requires left_after(ms, wl, q, b, q0, cur0, hit), q.len() > 0, 1 <= b.len() <= q[0].depth, !pm ==> none_beyond(ms, wl, q[0], b)
    ensures left(ms, wl, q, b.drop_last().push(b.last() + 1), q0, cur0, hit), !pm ==> none_before(ms, wl, q[0], b.drop_last().push(b.last() + 1))
{
    reveal(left); reveal(left_after); reveal(none_before); reveal(none_beyond);
    let d = b.drop_last().push(b.last() + 1);
    assert forall|c: Seq<int>| #[trigger] all_accept(ms, c) implies (todo(wl, q, d, c) == (todo(wl, q0, cur0, c) && hit != Some(c))) by {
        if todo_after(wl, q, b, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, b));
            if i == 0 { lemma_successor(c, b); }
            assert(belongs(wl, q[i], c) && (i == 0 ==> !before(c, d)));
        }
        if todo(wl, q, d, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !before(c, d));
            if i == 0 { lemma_successor(c, b); }
            assert(belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, b)));
        }
    }
    assert forall|c: Seq<int>| !pm && c.len() == q[0].depth && #[trigger] allowed(wl, q[0].tranche as int, c) && before(c, d) implies !all_viable(ms, c) by { lemma_successor(c, b); }
}
/// There is no next word
pub proof fn lemma_ascend(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, b: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>, pm: bool)
    requires left_after(ms, wl, q, b, q0, cur0, hit), q.len() > 0, 1 <= b.len() <= q[0].depth, !pm ==> none_beyond(ms, wl, q[0], b), sorted(wl), 0 <= b.last(),
        b.last() + 1 >= wl.len() || tranche_of(wl, b.last() + 1) > q[0].tranche
    ensures left_after(ms, wl, q, b.drop_last(), q0, cur0, hit), !pm ==> none_beyond(ms, wl, q[0], b.drop_last())
{
    reveal(left_after); reveal(none_beyond);
    let d = b.drop_last();
    let t = q[0].tranche as int;
    assert forall|c: Seq<int>| #[trigger] all_accept(ms, c) implies (todo_after(wl, q, d, c) == (todo(wl, q0, cur0, c) && hit != Some(c))) by {
        if todo_after(wl, q, b, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, b));
            if i == 0 { lemma_belongs(wl, q[0], c); lemma_parent(wl, t, c, b); }
            assert(belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, d)));
        }
        if todo_after(wl, q, d, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, d));
            if i == 0 { lemma_belongs(wl, q[0], c); lemma_parent(wl, t, c, b); }
            assert(belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, b)));
        }
    }
    assert forall|c: Seq<int>| !pm && c.len() == q[0].depth && #[trigger] allowed(wl, t, c) && beyond(c, d) implies !all_viable(ms, c) by { lemma_parent(wl, t, c, b); }
}
/// A part of the queue: nothing is lost that leads to a phrase
#[verifier::opaque]
pub open spec fn part(q1: Seq<SearchPhase>, q2: Seq<SearchPhase>, p: SearchPhase) -> bool {
    &&& forall|i: int| 0 <= i < q2.len() ==> q1.contains(#[trigger] q2[i])
    &&& forall|i: int| 0 <= i < q1.len() && ((#[trigger] q1[i]).tranche > p.tranche || q1[i].depth < p.depth) ==> q2.contains(q1[i])
}
/// All phrases of one depth and class have been tried
pub proof fn lemma_phase_end(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, q2: Seq<SearchPhase>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>, pm: bool)
    requires left_after(ms, wl, q, Seq::<int>::empty(), q0, cur0, hit), q.len() > 0, !pm ==> none_beyond(ms, wl, q[0], Seq::<int>::empty()), if pm { q2 == q.skip(1) } else { part(q.skip(1), q2, q[0]) }
    ensures left(ms, wl, q2, seq![0int], q0, cur0, hit), none_before(ms, wl, q2[0], seq![0int])
{
    reveal(left); reveal(left_after); reveal(none_beyond); reveal(none_before); reveal(part);
    let z = Seq::<int>::empty();
    let q1 = q.skip(1);
    assert forall|c: Seq<int>| #[trigger] all_accept(ms, c) implies (todo(wl, q2, seq![0int], c) == (todo(wl, q0, cur0, c) && hit != Some(c))) by {
        assert(beyond(c, z)) by { assert(c.take(0) =~= z); }
        if todo_after(wl, q, z, c) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] belongs(wl, q[i], c) && (i == 0 ==> !beyond(c, z));
            assert(q1[i - 1] == q[i]);
            if !pm && !q2.contains(q[i]) {
                let d = c.take(q[0].depth as int);
                lemma_belongs(wl, q[i], c);
                assert(allowed(wl, q[0].tranche as int, d)) by { assert forall|k: int| 0 <= k < d.len() implies 0 <= #[trigger] d[k] < wl.len() && tranche_of(wl, d[k]) <= q[0].tranche by { assert(d[k] == c[k]); } }
                assert(beyond(d, z)) by { assert(d.take(0) =~= z); }
                lemma_all_viable(ms, c, q[0].depth as int);
                assert(false);
            }
            assert(q2.contains(q[i])) by { if pm { assert(q2[i - 1] == q[i]); } }
            let k = choose|k: int| 0 <= k < q2.len() && q2[k] == q[i];
            assert(belongs(wl, q2[k], c));
            if before(c, seq![0int]) { let x = choose|x: int| 0 <= x < 1 && x < c.len() && c.take(x) == seq![0int].take(x) && #[trigger] c[x] < seq![0int][x]; assert(c[0] >= 0); }
            assert(belongs(wl, q2[k], c) && (k == 0 ==> !before(c, seq![0int])));
        }
        if todo(wl, q2, seq![0int], c) {
            let k = choose|k: int| 0 <= k < q2.len() && #[trigger] belongs(wl, q2[k], c) && (k == 0 ==> !before(c, seq![0int]));
            assert(q1.contains(q2[k])) by { if pm { assert(q1[k] == q2[k]); } }
            let i = choose|i: int| 0 <= i < q1.len() && q1[i] == q2[k];
            assert(q[i + 1] == q1[i]);
            assert(belongs(wl, q[i + 1], c));
        }
    }
    if q2.len() > 0 {
    }
    assert forall|c: Seq<int>| c.len() == q2[0].depth && #[trigger] allowed(wl, q2[0].tranche as int, c) && before(c, seq![0int]) implies !all_viable(ms, c) by {
        let x = choose|x: int| 0 <= x < 1 && x < c.len() && c.take(x) == seq![0int].take(x) && #[trigger] c[x] < seq![0int][x];
        assert(c[0] >= 0);
    }
}

// ---- the search comes to an end

pub open spec fn pow(b: int, k: int) -> int
    decreases k
{
    if k <= 0 { 1 } else { b * pow(b, k - 1) }
}
/// How far the search has got, among the phrases of up to `d` out of `n` words
pub open spec fn rank(c: Seq<int>, n: int, d: int) -> int
    decreases c.len()
{
    if c.len() == 0 { 0 } else { rank(c.drop_last(), n, d) + (c.last() + 1) * pow(n + 1, d - c.len()) }
}
pub proof fn lemma_pow(b: int, k: int)
    requires b >= 1
    ensures pow(b, k) >= 1
    decreases k
{
    if k > 0 { lemma_pow(b, k - 1); assert(b * pow(b, k - 1) >= 1) by (nonlinear_arith) requires b >= 1, pow(b, k - 1) >= 1; }
}
pub proof fn lemma_rank(c: Seq<int>, n: int, d: int)
    requires within(c, n), c.len() <= d, n >= 1
    ensures rank(c, n, d) + pow(n + 1, d - c.len()) <= pow(n + 1, d)
    decreases c.len()
{
    if c.len() > 0 {
        let e = c.drop_last();
        assert(within(e, n));
        lemma_rank(e, n, d);
        let x = pow(n + 1, d - c.len());
        assert(0 <= c[c.len() - 1] < n);
        lemma_pow(n + 1, d - c.len());
        assert(pow(n + 1, d - e.len()) == (n + 1) * x);
        assert((c.last() + 1) * x + x <= (n + 1) * x) by (nonlinear_arith) requires c.last() + 2 <= n + 1, x >= 1;
    }
}
/// What remains to be searched in the phase
pub open spec fn room(c: Seq<int>, n: int, d: int) -> int { pow(n + 1, d) - rank(c, n, d) }
pub proof fn lemma_room_down(c: Seq<int>, n: int, d: int)
    requires within(c, n), c.len() < d, n >= 1
    ensures 0 <= room(c.push(0), n, d) < room(c, n, d)
{
    assert(c.push(0).drop_last() =~= c);
    lemma_pow(n + 1, d - c.len() - 1);
    assert(within(c.push(0), n)) by { assert forall|i: int| 0 <= i < c.push(0).len() implies 0 <= #[trigger] c.push(0)[i] < n by { if i < c.len() { assert(c.push(0)[i] == c[i]); } } }
    lemma_rank(c.push(0), n, d);
    assert((0 + 1) * pow(n + 1, d - c.len() - 1) == pow(n + 1, d - c.len() - 1)) by (nonlinear_arith);
}
/// What remains after all that begins with `b`
pub open spec fn room_after(b: Seq<int>, n: int, d: int) -> int { room(b, n, d) - pow(n + 1, d - b.len()) }
pub proof fn lemma_room_after(b: Seq<int>, n: int, d: int)
    requires within(b, n), b.len() <= d, n >= 1
    ensures 0 <= room_after(b, n, d) < room(b, n, d)
{ lemma_rank(b, n, d); lemma_pow(n + 1, d - b.len()); }
pub proof fn lemma_room_back(b: Seq<int>, n: int, d: int)
    requires within(b, n), 1 <= b.len() <= d, n >= 1
    ensures room_after(b.drop_last(), n, d) <= room_after(b, n, d)
{
    let x = pow(n + 1, d - b.len());
    lemma_pow(n + 1, d - b.len());
    assert(0 <= b[b.len() - 1] < n);
    assert(pow(n + 1, d - b.len() + 1) == (n + 1) * x);
    assert((b.last() + 1) * x + x <= (n + 1) * x) by (nonlinear_arith) requires b.last() + 2 <= n + 1, x >= 1;
}
pub proof fn lemma_room_next(b: Seq<int>, n: int, d: int)
    requires b.len() >= 1
    ensures room(b.drop_last().push(b.last() + 1), n, d) == room_after(b, n, d)
{
    let e = b.drop_last().push(b.last() + 1);
    let x = pow(n + 1, d - b.len());
    assert(e.drop_last() =~= b.drop_last());
    assert((b.last() + 1 + 1) * x == (b.last() + 1) * x + x) by (nonlinear_arith);
}
""")
    return m
