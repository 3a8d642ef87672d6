"""Words and states that are of no use for phrases are dropped"""
from build import Module
from extract import Fn, Loop
from matcher import MAP
from tranches import MOST, EACH, RANGE

PART = "a part of a function becomes one of its own"
ROWS = "comparison is done by a wrapper with an assumed contract"
FLAGS = "allocation is done by a wrapper with an assumed contract"


def module():
    m = Module("narrow", "matcher.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::optimize::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::tranches::*;

// ---- runs: the words lead from state to state

impl PhraseMatcher {
    pub open spec fn used(self, k: int) -> bool { self.classes.values()[k].words_count > 0 }
    pub open spec fn hop(self, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int) -> bool { fs[i] <= fs[i + 1] && isset(at(self.table(c[i]), xs[i], fs[i + 1] - fs[i]), xs[i + 1]) }
    pub open spec fn run(self, c: Seq<int>, xs: Seq<int>, fs: Seq<int>) -> bool {
        &&& xs.len() == c.len() + 1 && fs.len() == c.len() + 1 && fs[0] == 0 && isset(self.start_states.blocks@, xs[0])
        &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] self.hop(c, xs, fs, i)
    }
    pub open spec fn accepting(self, c: Seq<int>, xs: Seq<int>, fs: Seq<int>) -> bool { self.run(c, xs, fs) && xs.last() == self.states_len - 1 && fs.last() < self.fuzz_limit }
    /// Every word has its class
    #[verifier::opaque]
    pub open spec fn settled(self, n: int) -> bool {
        &&& self.word_classes@.len() == n
        &&& forall|w: int| 0 <= w < n ==> 0 <= #[trigger] self.word_classes@[w] < self.classes.keys().len() && self.used(self.word_classes@[w] as int)
    }
    /// The first class is that of words which lead nowhere
    pub open spec fn dead_first(self) -> bool { forall|d: int, f: int, x: int| 0 <= d < self.states_len && 0 <= f < self.fuzz_limit ==> !#[trigger] isset(at(self.classes.keys()[0], d, f), x) }
    /// What the start states lead to, the first state leads to
    #[verifier::opaque]
    pub open spec fn covered(self, n: int) -> bool {
        &&& isset(self.start_states.blocks@, 0)
        &&& forall|w: int, x: int, f: int, d: int| 0 <= w < n && isset(self.start_states.blocks@, x) && 0 <= f < self.fuzz_limit && #[trigger] isset(at(self.table(w), x, f), d) ==> has(self.table(w), 0, f, d)
    }
    pub open spec fn none_accepted(self, n: int, d: int) -> bool { forall|c: Seq<int>| within(c, n) && 1 <= c.len() <= d ==> !#[trigger] self.accepts(c) }
}
proof fn lemma_run_to(pm: PhraseMatcher, c: Seq<int>, xs: Seq<int>, fs: Seq<int>)
    requires pm.run(c, xs, fs)
    ensures pm.reaches(c)(fs.last(), xs.last()), 0 <= fs.last()
    decreases c.len()
{
    if c.len() > 0 {
        let m = c.len() - 1;
        let (c0, xs0, fs0) = (c.drop_last(), xs.drop_last(), fs.drop_last());
        assert forall|i: int| 0 <= i < c0.len() implies #[trigger] pm.hop(c0, xs0, fs0, i) by { assert(pm.hop(c, xs, fs, i)); }
        lemma_run_to(pm, c0, xs0, fs0);
        assert(pm.hop(c, xs, fs, m));
        assert(pm.reaches(c0)(fs[m], xs[m]));
    }
}
proof fn lemma_run_of(pm: PhraseMatcher, c: Seq<int>, f: int, x: int) -> (r: (Seq<int>, Seq<int>))
    requires pm.reaches(c)(f, x)
    ensures pm.run(c, r.0, r.1), r.0.last() == x, r.1.last() == f
    decreases c.len()
{
    if c.len() == 0 { (seq![x], seq![0int]) } else {
        let c0 = c.drop_last();
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] pm.reaches(c0)(g, d) && isset(at(pm.table(c.last()), d, f - g), x);
        let (xs0, fs0) = lemma_run_of(pm, c0, g, d);
        let (xs, fs) = (xs0.push(x), fs0.push(f));
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] pm.hop(c, xs, fs, i) by { if i < c.len() - 1 { assert(pm.hop(c0, xs0, fs0, i)); } }
        (xs, fs)
    }
}
proof fn lemma_accepting(pm: PhraseMatcher, c: Seq<int>) -> (r: (Seq<int>, Seq<int>))
    requires pm.accepts(c)
    ensures pm.accepting(c, r.0, r.1)
{
    let f = choose|f: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.reaches(c)(f, pm.states_len - 1);
    lemma_run_of(pm, c, f, pm.states_len - 1)
}
proof fn lemma_accepts(pm: PhraseMatcher, c: Seq<int>, xs: Seq<int>, fs: Seq<int>)
    requires pm.accepting(c, xs, fs)
    ensures pm.accepts(c)
{ lemma_run_to(pm, c, xs, fs); }
proof fn lemma_run_edits(pm: PhraseMatcher, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int, j: int)
    requires pm.run(c, xs, fs), 0 <= i <= j <= c.len()
    ensures 0 <= fs[i] <= fs[j]
    decreases j
{
    if i < j { lemma_run_edits(pm, c, xs, fs, i, j - 1); assert(pm.hop(c, xs, fs, j - 1)); }
    else if i > 0 { lemma_run_edits(pm, c, xs, fs, i - 1, i - 1); assert(pm.hop(c, xs, fs, i - 1)); }
}
proof fn lemma_run_states(pm: PhraseMatcher, n: int, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int)
    requires pm.run(c, xs, fs), pm.tidy(), pm.settled(n), within(c, n), fs.last() < pm.fuzz_limit, 0 <= i <= c.len()
    ensures 0 <= xs[i] < pm.states_len
    decreases i
{
    reveal(PhraseMatcher::tidy); reveal(PhraseMatcher::settled);
    if i > 0 {
        lemma_run_states(pm, n, c, xs, fs, i - 1);
        assert(pm.hop(c, xs, fs, i - 1));
        lemma_run_edits(pm, c, xs, fs, i - 1, c.len() as int);
        lemma_run_edits(pm, c, xs, fs, i, c.len() as int);
        let k = pm.word_classes@[c[i - 1]] as int;
        assert(isset(at(pm.classes.keys()[k], xs[i - 1], fs[i] - fs[i - 1]), xs[i]));
    }
}

// ---- how far words lead

impl PhraseMatcher {
    pub open spec fn grown(self, r: spec_fn(int, int) -> bool, done: int) -> spec_fn(int, int) -> bool {
        |f: int, x: int| r(f, x) || exists|k: int| 0 <= k < done && self.used(k) && leads(#[trigger] self.classes.keys()[k], r, f, x)
    }
    /// By at most `j` words
    pub open spec fn far(self, s: spec_fn(int, int) -> bool, j: int) -> spec_fn(int, int) -> bool
        decreases j
    {
        if j <= 0 { s } else { self.grown(self.far(s, j - 1), self.classes.keys().len() as int) }
    }
    pub open spec fn started(self) -> spec_fn(int, int) -> bool { |f: int, x: int| f == 0 && isset(self.start_states.blocks@, x) }
    /// From a start state to `x`
    pub open spec fn comes(self, d: int, x: int) -> bool { exists|f: int| 0 <= f < self.fuzz_limit && #[trigger] self.far(self.started(), d)(f, x) }
    /// From `x` to the last state
    pub open spec fn goes(self, d: int, x: int) -> bool { exists|f: int| 0 <= f < self.fuzz_limit && #[trigger] self.far(alone(x), d)(f, self.states_len - 1) }
}
pub open spec fn alone(src: int) -> spec_fn(int, int) -> bool { |f: int, x: int| f == 0 && x == src }
proof fn lemma_far_more(pm: PhraseMatcher, s: spec_fn(int, int) -> bool, i: int, j: int, f: int, x: int)
    requires 0 <= i <= j, pm.far(s, i)(f, x)
    ensures pm.far(s, j)(f, x)
    decreases j
{
    if i < j { lemma_far_more(pm, s, i, j - 1, f, x); assert(pm.far(s, j) == pm.grown(pm.far(s, j - 1), pm.classes.keys().len() as int)); }
}
proof fn lemma_far_hop(pm: PhraseMatcher, n: int, s: spec_fn(int, int) -> bool, j: int, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int, f: int)
    requires pm.settled(n), within(c, n), 0 <= i < c.len(), pm.hop(c, xs, fs, i), 0 <= j, 0 <= f, pm.far(s, j)(f, xs[i])
    ensures pm.far(s, j + 1)(f + (fs[i + 1] - fs[i]), xs[i + 1])
{
    reveal(PhraseMatcher::settled);
    let k = pm.word_classes@[c[i]] as int;
    let r = pm.far(s, j);
    assert(r(f, xs[i]));
    assert(leads(pm.classes.keys()[k], r, f + (fs[i + 1] - fs[i]), xs[i + 1]));
    assert(pm.far(s, j + 1) == pm.grown(r, pm.classes.keys().len() as int));
}
proof fn lemma_far_start(pm: PhraseMatcher, n: int, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int)
    requires pm.settled(n), within(c, n), pm.run(c, xs, fs), 0 <= i <= c.len()
    ensures pm.far(pm.started(), i)(fs[i], xs[i])
    decreases i
{
    if i > 0 {
        lemma_far_start(pm, n, c, xs, fs, i - 1);
        assert(pm.hop(c, xs, fs, i - 1));
        lemma_run_edits(pm, c, xs, fs, i - 1, i - 1);
        lemma_far_hop(pm, n, pm.started(), i - 1, c, xs, fs, i - 1, fs[i - 1]);
    }
}
proof fn lemma_far_on(pm: PhraseMatcher, n: int, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int, j: int)
    requires pm.settled(n), within(c, n), pm.run(c, xs, fs), 0 <= i <= j <= c.len()
    ensures pm.far(alone(xs[i]), j - i)(fs[j] - fs[i], xs[j])
    decreases j
{
    if i < j {
        lemma_far_on(pm, n, c, xs, fs, i, j - 1);
        assert(pm.hop(c, xs, fs, j - 1));
        lemma_run_edits(pm, c, xs, fs, i, j - 1);
        lemma_far_hop(pm, n, alone(xs[i]), j - 1 - i, c, xs, fs, j - 1, fs[j - 1] - fs[i]);
    }
}
/// All states on the way of a phrase are in the set
pub open spec fn living(pm: PhraseMatcher, d: int, a: Seq<u32>) -> bool { forall|x: int| 0 <= x < pm.states_len && pm.comes(d, x) && pm.goes(d, x) ==> #[trigger] isset(a, x) }
proof fn lemma_living(pm: PhraseMatcher, n: int, d: int, a: Seq<u32>, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int)
    requires pm.tidy(), pm.settled(n), within(c, n), c.len() <= d, pm.accepting(c, xs, fs), living(pm, d, a), 0 <= i <= c.len()
    ensures isset(a, xs[i])
{
    let m = c.len() as int;
    lemma_run_states(pm, n, c, xs, fs, i);
    lemma_run_edits(pm, c, xs, fs, i, m);
    lemma_far_start(pm, n, c, xs, fs, i);
    lemma_far_more(pm, pm.started(), i, d, fs[i], xs[i]);
    lemma_far_on(pm, n, c, xs, fs, i, m);
    lemma_far_more(pm, alone(xs[i]), m - i, d, fs[m] - fs[i], xs[m]);
    assert(pm.comes(d, xs[i]) && pm.goes(d, xs[i]));
}

// ---- states which do the same

pub open spec fn rep(red: Seq<Option<usize>>, s: int) -> int { match red[s] { None => s, Some(i) => i as int } }
/// How many states before `s` stay
pub open spec fn count(red: Seq<Option<usize>>, s: int) -> int
    decreases s
{ if s <= 0 { 0 } else { count(red, s - 1) + (if red[s - 1] is None { 1int } else { 0 }) } }
pub proof fn lemma_count(red: Seq<Option<usize>>, i: int, j: int)
    requires 0 <= i <= j <= red.len()
    ensures 0 <= count(red, i) <= count(red, j) <= j, i < j && red[i] is None ==> count(red, i) < count(red, j)
    decreases j
{ if i < j { lemma_count(red, i, j - 1); if i == j - 1 { } } else if i > 0 { lemma_count(red, i - 1, i - 1); } }
/// A state that stays is known by its number
pub proof fn lemma_count_one(red: Seq<Option<usize>>, i: int, j: int)
    requires 0 <= i < red.len(), 0 <= j < red.len(), red[i] is None, red[j] is None, count(red, i) == count(red, j)
    ensures i == j
{ if i < j { lemma_count(red, i, j); } else if j < i { lemma_count(red, j, i); } }
impl PhraseMatcher {
    pub open spec fn leap(self, k: int, s: int, f: int, x: int) -> bool { isset(at(self.classes.keys()[k], s, f), x) }
    pub open spec fn same_out(self, i: int, j: int, k: int, f: int, d: int) -> bool { self.leap(k, i, f, d) == self.leap(k, j, f, d) }
    pub open spec fn same_in(self, i: int, j: int, k: int, f: int, d: int) -> bool { self.leap(k, d, f, i) == self.leap(k, d, f, j) }
    /// The states do the same, as far as the states in `a` are concerned
    #[verifier::opaque]
    pub open spec fn twins(self, a: Seq<u32>, i: int, j: int) -> bool {
        forall|k: int, f: int, d: int| #![trigger self.same_out(i, j, k, f, d)] #![trigger self.same_in(i, j, k, f, d)] 0 <= k < self.classes.keys().len() && self.used(k) && 0 <= f < self.fuzz_limit && isset(a, d) ==>
            self.same_out(i, j, k, f, d) && self.same_in(i, j, k, f, d)
    }
    #[verifier::opaque]
    pub open spec fn alike(self, a: Seq<u32>, i: int, j: int, k: int, f: int) -> bool { forall|d: int| #![trigger self.same_out(i, j, k, f, d)] #![trigger self.same_in(i, j, k, f, d)] isset(a, d) ==> self.same_out(i, j, k, f, d) && self.same_in(i, j, k, f, d) }
    pub open spec fn folds(self, a: Seq<u32>, red: Seq<Option<usize>>, s: int) -> bool {
        match red[s] {
            None => isset(a, s),
            Some(i) => if i == s { !isset(a, s) } else { i < s < self.states_len - 1 && isset(a, s) && isset(a, i as int) && red[i as int] is None && self.twins(a, i as int, s) }
        }
    }
    /// What becomes of the states
    #[verifier::opaque]
    pub open spec fn folded(self, a: Seq<u32>, red: Seq<Option<usize>>) -> bool {
        &&& red.len() == self.states_len && red[self.states_len - 1] is None
        &&& forall|s: int| 0 <= s < self.states_len ==> #[trigger] self.folds(a, red, s)
    }
}
pub open spec fn stays(red: Seq<Option<usize>>, d: int, z: int) -> bool { 0 <= d < red.len() && red[d] is None && count(red, d) == z }
pub open spec fn becomes(red: Seq<Option<usize>>, s: int, y: int) -> bool { 0 <= s < red.len() && red[s] != Some(s as usize) && count(red, rep(red, s)) == y }
/// The table `u` is what remains of `t`
#[verifier::opaque]
pub open spec fn remapped(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D) -> bool {
    forall|y: int, f: int, z: int| 0 <= y < count(red, red.len() as int) && 0 <= f < b ==> #[trigger] isset(at(u, y, f), z) == (exists|s: int, d: int| becomes(red, s, y) && stays(red, d, z) && #[trigger] isset(at(t, s, f), d))
}
#[verifier::opaque]
pub open spec fn restarted(red: Seq<Option<usize>>, t: Seq<u32>, u: Seq<u32>) -> bool {
    forall|z: int| #[trigger] isset(u, z) == (exists|d: int| stays(red, d, z) && #[trigger] isset(t, d))
}
/// A state which stays takes the place of another one
proof fn lemma_hop(pm: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, k: int, u: BitSet3D, s: int, f: int, d: int)
    requires pm.folded(a, red), 0 <= k < pm.classes.keys().len(), pm.used(k), remapped(red, pm.fuzz_limit as int, pm.classes.keys()[k], u), 0 <= s < pm.states_len, 0 <= d < pm.states_len, isset(a, s), isset(a, d), pm.leap(k, s, f, d), 0 <= f < pm.fuzz_limit
    ensures isset(at(u, count(red, rep(red, s)), f), count(red, rep(red, d)))
{
    reveal(PhraseMatcher::folded); reveal(PhraseMatcher::twins); reveal(remapped);
    assert(pm.folds(a, red, s) && pm.folds(a, red, d));
    let s2 = rep(red, s);
    let d2 = rep(red, d);
    assert(pm.leap(k, s2, f, d)) by { if s2 != s { assert(pm.twins(a, s2, s)); assert(pm.same_out(s2, s, k, f, d)); } }
    assert(pm.leap(k, s2, f, d2)) by { if d2 != d { assert(pm.twins(a, d2, d)); assert(pm.same_in(d2, d, k, f, s2)); } }
    assert(isset(at(pm.classes.keys()[k], s2, f), d2));
    assert(becomes(red, s2, count(red, s2)));
    assert(stays(red, d2, count(red, d2)));
    lemma_count(red, s2, red.len() as int);
}
/// and leads nowhere else
proof fn lemma_unhop(pm: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, k: int, u: BitSet3D, s: int, f: int, z: int) -> (d: int)
    requires pm.folded(a, red), 0 <= k < pm.classes.keys().len(), pm.used(k), remapped(red, pm.fuzz_limit as int, pm.classes.keys()[k], u), stays(red, s, count(red, s)), isset(at(u, count(red, s), f), z), 0 <= f < pm.fuzz_limit
    ensures stays(red, d, z), pm.leap(k, s, f, d), isset(a, d)
{
    reveal(PhraseMatcher::folded); reveal(PhraseMatcher::twins); reveal(remapped);
    let t = pm.classes.keys()[k];
    lemma_count(red, s, red.len() as int);
    let (s1, d) = choose|s1: int, d: int| becomes(red, s1, count(red, s)) && stays(red, d, z) && #[trigger] isset(at(t, s1, f), d);
    assert(pm.folds(a, red, s1) && pm.folds(a, red, d));
    assert(rep(red, s1) == s) by { lemma_count_one(red, rep(red, s1), s); }
    if s1 != s { assert(pm.twins(a, s, s1)); assert(pm.leap(k, s1, f, d)); assert(pm.same_out(s, s1, k, f, d)); }
    d
}
pub open spec fn comp(c: Seq<int>, m: Seq<int>) -> Seq<int> { Seq::new(c.len(), |i: int| m[c[i]]) }
pub open spec fn rising(m: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> m[i] < m[j] }
pub open spec fn into(m: Seq<int>, n: int) -> bool { rising(m) && within(m, n) }

/// `next` is `pm` with fewer states and words
#[verifier::opaque]
pub open spec fn shrunk(pm: PhraseMatcher, n: int, next: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, idx: Seq<int>) -> bool {
    &&& pm.folded(a, red) && next.states_len == count(red, red.len() as int) && next.fuzz_limit == pm.fuzz_limit && restarted(red, pm.start_states.blocks@, next.start_states.blocks@)
    &&& into(idx, n) && next.word_classes@.len() == idx.len()
    &&& forall|w: int| 0 <= w < idx.len() ==> remapped(red, pm.fuzz_limit as int, pm.table(idx[w]), #[trigger] next.table(w))
    &&& forall|w: int| 0 <= w < n && !(#[trigger] idx.contains(w)) ==> exists|u: BitSet3D| #[trigger] remapped(red, pm.fuzz_limit as int, pm.table(w), u) && !matters(u, next.states_len as int, pm.fuzz_limit as int)
}
pub open spec fn matters(t: BitSet3D, n: int, b: int) -> bool { exists|s: int, f: int, x: int| 0 <= s < n && 0 <= f < b && #[trigger] isset(at(t, s, f), x) }
/// What the new one accepts, the old one accepts
proof fn lemma_back_again(pm: PhraseMatcher, n: int, next: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, idx: Seq<int>, c: Seq<int>)
    requires pm.tidy(), pm.settled(n), shrunk(pm, n, next, a, red, idx), within(c, idx.len() as int), next.accepts(c)
    ensures pm.accepts(comp(c, idx))
{
    reveal(shrunk); reveal(PhraseMatcher::settled); reveal(PhraseMatcher::folded);
    let (ys, fs) = lemma_accepting(next, c);
    let xs = lemma_old_run(pm, n, next, a, red, idx, c, ys, fs, c.len() as int);
    let nn = pm.states_len as int;
    let m = c.len() as int;
    assert(c.take(m) =~= c && fs.take(m + 1) =~= fs);
    assert(red.len() == nn && red[nn - 1] is None);
    assert(count(red, nn) == count(red, nn - 1) + 1);
    assert(stays(red, xs[m], ys[m]));
    assert(ys[m] == next.states_len - 1);
    lemma_count_one(red, xs[m], nn - 1);
    lemma_accepts(pm, comp(c, idx), xs, fs);
}
proof fn lemma_old_run(pm: PhraseMatcher, n: int, next: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, idx: Seq<int>, c: Seq<int>, ys: Seq<int>, fs: Seq<int>, m: int) -> (xs: Seq<int>)
    requires pm.tidy(), pm.settled(n), shrunk(pm, n, next, a, red, idx), within(c, idx.len() as int), next.accepting(c, ys, fs), 0 <= m <= c.len()
    ensures xs.len() == m + 1, pm.run(comp(c.take(m), idx), xs, fs.take(m + 1)), forall|i: int| 0 <= i <= m ==> stays(red, #[trigger] xs[i], ys[i])
    decreases m
{
    reveal(shrunk); reveal(PhraseMatcher::settled); reveal(restarted);
    if m == 0 {
        assert(isset(next.start_states.blocks@, ys[0]));
        let d = choose|d: int| stays(red, d, ys[0]) && #[trigger] isset(pm.start_states.blocks@, d);
        seq![d]
    } else {
        let xs0 = lemma_old_run(pm, n, next, a, red, idx, c, ys, fs, m - 1);
        assert(next.hop(c, ys, fs, m - 1));
        let w = c[m - 1];
        let k = pm.word_classes@[idx[w]] as int;
        lemma_run_edits(next, c, ys, fs, m - 1, c.len() as int);
        lemma_run_edits(next, c, ys, fs, m, c.len() as int);
        assert(0 <= w < idx.len() && 0 <= idx[w] < n);
        assert(next.table(w) == next.table(c[m - 1]));
        let d = lemma_unhop(pm, a, red, k, next.table(w), xs0[m - 1], fs[m] - fs[m - 1], ys[m]);
        let xs = xs0.push(d);
        let (cc, ff) = (comp(c.take(m), idx), fs.take(m + 1));
        let (c0, f0) = (comp(c.take(m - 1), idx), fs.take(m));
        assert forall|i: int| 0 <= i < cc.len() implies #[trigger] pm.hop(cc, xs, ff, i) by { if i < m - 1 { assert(pm.hop(c0, xs0, f0, i)); } }
        xs
    }
}
/// From the first state
proof fn lemma_from_first(pm: PhraseMatcher, n: int, c: Seq<int>, xs: Seq<int>, fs: Seq<int>) -> (r: (Seq<int>, Seq<int>))
    requires pm.covered(n), pm.tidy(), pm.settled(n), within(c, n), c.len() >= 1, pm.accepting(c, xs, fs)
    ensures pm.accepting(c, r.0, r.1), r.0[0] == 0
{
    reveal(PhraseMatcher::covered);
    assert(pm.hop(c, xs, fs, 0));
    lemma_run_edits(pm, c, xs, fs, 1, c.len() as int);
    assert(0 <= c[0] < n);
    assert(isset(at(pm.table(c[0]), xs[0], fs[1]), xs[1]));
    let g = choose|g: int| 0 <= g <= fs[1] && #[trigger] isset(at(pm.table(c[0]), 0, g), xs[1]);
    let ys = xs.update(0, 0);
    let gs = Seq::new(fs.len(), |i: int| if i == 0 { 0 } else { fs[i] - fs[1] + g });
    assert(ys.len() == xs.len() && gs.len() == fs.len() && ys[0] == 0 && gs[0] == 0 && gs[1] == g && ys[1] == xs[1]);
    assert(pm.hop(c, ys, gs, 0)) by { assert(gs[1] - gs[0] == g); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] pm.hop(c, ys, gs, i) by {
        if i > 0 { assert(pm.hop(c, xs, fs, i)); assert(ys[i] == xs[i] && ys[i + 1] == xs[i + 1]); assert(gs[i + 1] - gs[i] == fs[i + 1] - fs[i]); }
    }
    assert(pm.run(c, ys, gs));
    assert(ys.last() == xs.last());
    assert(gs.last() <= fs.last());
    (ys, gs)
}
/// What the old one accepts, the new one accepts
proof fn lemma_ahead(pm: PhraseMatcher, n: int, d: int, next: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, idx: Seq<int>, c: Seq<int>) -> (r: Seq<int>)
    requires pm.tidy(), pm.settled(n), pm.covered(n) || pm.none_accepted(n, d), shrunk(pm, n, next, a, red, idx), living(pm, d, a), within(c, n), 1 <= c.len() <= d, pm.accepts(c)
    ensures within(r, idx.len() as int), c == comp(r, idx), next.accepts(r)
{
    reveal(shrunk); reveal(PhraseMatcher::settled); reveal(PhraseMatcher::folded); reveal(restarted);
    assert(pm.covered(n));
    let (xs0, fs0) = lemma_accepting(pm, c);
    let (xs, fs) = lemma_from_first(pm, n, c, xs0, fs0);
    let nn = red.len() as int;
    let b = pm.fuzz_limit as int;
    assert forall|i: int| 0 <= i < c.len() implies idx.contains(#[trigger] c[i]) by {
        if !idx.contains(c[i]) {
            assert(0 <= c[i] < n);
            let u = choose|u: BitSet3D| #[trigger] remapped(red, b, pm.table(c[i]), u) && !matters(u, next.states_len as int, b);
            lemma_ahead_hop(pm, n, d, a, red, c, xs, fs, i, u);
            lemma_run_states(pm, n, c, xs, fs, i);
            assert(pm.folds(a, red, xs[i]));
            lemma_living(pm, n, d, a, c, xs, fs, i);
            lemma_count(red, rep(red, xs[i]), nn);
        }
    }
    let r = Seq::new(c.len(), |i: int| choose|w: int| 0 <= w < idx.len() && idx[w] == c[i]);
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] r[i] < idx.len() && idx[r[i]] == c[i] by { assert(idx.contains(c[i])); }
    assert(comp(r, idx) =~= c);
    let ys = Seq::new(xs.len(), |i: int| count(red, rep(red, xs[i])));
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] next.hop(r, ys, fs, i) by {
        assert(pm.hop(c, xs, fs, i));
        assert(0 <= r[i] < idx.len() && idx[r[i]] == c[i]);
        lemma_ahead_hop(pm, n, d, a, red, c, xs, fs, i, next.table(r[i]));
    }
    lemma_living(pm, n, d, a, c, xs, fs, 0);
    assert(pm.folds(a, red, 0));
    assert(stays(red, 0, ys[0]));
    assert(isset(pm.start_states.blocks@, 0));
    assert(isset(next.start_states.blocks@, ys[0]));
    lemma_accepts(next, r, ys, fs);
    r
}
proof fn lemma_ahead_hop(pm: PhraseMatcher, n: int, d: int, a: Seq<u32>, red: Seq<Option<usize>>, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int, u: BitSet3D)
    requires pm.tidy(), pm.settled(n), living(pm, d, a), within(c, n), c.len() <= d, pm.accepting(c, xs, fs), pm.folded(a, red), 0 <= i < c.len(), remapped(red, pm.fuzz_limit as int, pm.table(c[i]), u)
    ensures isset(at(u, count(red, rep(red, xs[i])), fs[i + 1] - fs[i]), count(red, rep(red, xs[i + 1]))), 0 <= fs[i + 1] - fs[i] < pm.fuzz_limit
{
    reveal(PhraseMatcher::settled);
    lemma_living(pm, n, d, a, c, xs, fs, i);
    lemma_living(pm, n, d, a, c, xs, fs, i + 1);
    lemma_run_states(pm, n, c, xs, fs, i);
    lemma_run_states(pm, n, c, xs, fs, i + 1);
    lemma_run_edits(pm, c, xs, fs, i, c.len() as int);
    lemma_run_edits(pm, c, xs, fs, i + 1, c.len() as int);
    assert(pm.hop(c, xs, fs, i));
    lemma_hop(pm, a, red, pm.word_classes@[c[i]] as int, u, xs[i], fs[i + 1] - fs[i], xs[i + 1]);
}
/// The first state still covers the start states
proof fn lemma_still_covered(pm: PhraseMatcher, n: int, d: int, next: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, idx: Seq<int>)
    requires pm.tidy(), pm.settled(n), pm.covered(n) || pm.none_accepted(n, d), shrunk(pm, n, next, a, red, idx), living(pm, d, a)
    ensures next.covered(idx.len() as int) || next.none_accepted(idx.len() as int, d)
{
    reveal(PhraseMatcher::folded);
    let m = idx.len() as int;
    if !next.none_accepted(m, d) {
        let c = choose|c: Seq<int>| within(c, m) && 1 <= c.len() <= d && #[trigger] next.accepts(c);
        lemma_back_again(pm, n, next, a, red, idx, c);
        let cc = comp(c, idx);
        assert(within(cc, n)) by { reveal(shrunk); assert forall|i: int| 0 <= i < cc.len() implies 0 <= #[trigger] cc[i] < n by { assert(0 <= c[i] < m); } }
        assert(pm.covered(n));
        let (xs0, fs0) = lemma_accepting(pm, cc);
        let (xs, fs) = lemma_from_first(pm, n, cc, xs0, fs0);
        lemma_living(pm, n, d, a, cc, xs, fs, 0);
        lemma_run_states(pm, n, cc, xs, fs, 0);
        reveal(shrunk); reveal(PhraseMatcher::covered); reveal(PhraseMatcher::settled);
        assert(pm.folds(a, red, 0));
        assert(stays(red, 0, 0));
        assert(isset(next.start_states.blocks@, 0)) by { reveal(restarted); assert(isset(pm.start_states.blocks@, 0)); }
        assert forall|w: int, x: int, f: int, y: int| 0 <= w < m && isset(next.start_states.blocks@, x) && 0 <= f < next.fuzz_limit && #[trigger] isset(at(next.table(w), x, f), y) implies has(next.table(w), 0, f, y) by {
            reveal(restarted);
            let x0 = choose|x0: int| stays(red, x0, x) && #[trigger] isset(pm.start_states.blocks@, x0);
            let k = pm.word_classes@[idx[w]] as int;
            assert(0 <= idx[w] < n);
            let y0 = lemma_unhop(pm, a, red, k, next.table(w), x0, f, y);
            assert(isset(at(pm.table(idx[w]), x0, f), y0));
            let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(pm.table(idx[w]), 0, g), y0);
            lemma_hop(pm, a, red, k, next.table(w), 0, g, y0);
            assert(isset(at(next.table(w), 0, g), y));
        }
    }
}
""")
    m.text(r"""
// ---- parts of `optimize_for_wordlist`

#[verifier::external_body]
pub fn falses(n: usize) -> (r: Vec<bool>)
    ensures r@.len() == n { vec![false; n] }
#[verifier::external_body]
pub fn same_table(x: &BitSet2D, y: &BitSet2D) -> (r: bool)
    ensures r == (x.blocks@ == y.blocks@ && x.size == y.size) { unimplemented!() }
impl<'word> WordMatcher<'word> {
    pub open spec fn sized(self, states_len: usize, fuzz_limit: usize) -> bool { self.phrase_matcher.ok() && self.phrase_matcher.tidy() && states_len == self.phrase_matcher.states_len && fuzz_limit == self.phrase_matcher.fuzz_limit }
}
proof fn lemma_sized(pm: PhraseMatcher)
    requires pm.ok(), pm.tidy()
    ensures 1 <= pm.states_len <= 16384, 1 <= pm.fuzz_limit <= 16384, blocks_for(pm.states_len as int) <= 513, 0 <= pm.fuzz_limit * blocks_for(pm.states_len as int) <= 16384 * 513,
        blocks_for(pm.states_len as int) * pm.fuzz_limit == pm.fuzz_limit * blocks_for(pm.states_len as int)
{
    reveal(PhraseMatcher::ok); reveal(PhraseMatcher::tidy);
    let b = pm.fuzz_limit as int; let k = blocks_for(pm.states_len as int);
    assert(0 <= b * k <= 16384 * 513) by (nonlinear_arith) requires 0 <= b <= 16384, 0 <= k <= 513;
    assert(b * k == k * b) by (nonlinear_arith);
}
pub open spec fn bounded(pm: PhraseMatcher, s: spec_fn(int, int) -> bool) -> bool { forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] s(f, x) ==> 0 <= x < pm.states_len }
proof fn lemma_far_range(pm: PhraseMatcher, s: spec_fn(int, int) -> bool, j: int, f: int, x: int)
    requires pm.tidy(), bounded(pm, s), pm.far(s, j)(f, x), 0 <= f < pm.fuzz_limit
    ensures 0 <= x < pm.states_len
    decreases j
{
    reveal(PhraseMatcher::tidy);
    if j > 0 {
        let r = pm.far(s, j - 1);
        if r(f, x) { lemma_far_range(pm, s, j - 1, f, x); } else {
            let k = choose|k: int| 0 <= k < pm.classes.keys().len() && pm.used(k) && leads(#[trigger] pm.classes.keys()[k], r, f, x);
            let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(pm.classes.keys()[k], d, f - g), x);
            lemma_far_range(pm, s, j - 1, g, d);
            assert(isset(at(pm.classes.keys()[k], d, f - g), x));
        }
    }
}
proof fn lemma_far_shown(pm: PhraseMatcher, t: Seq<u32>, k: int, s: spec_fn(int, int) -> bool, j: int)
    requires pm.tidy(), bounded(pm, s), shows(t, k, pm.fuzz_limit as int, pm.far(s, j))
    ensures forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] isset(rows(t, k, f), x) ==> x < pm.states_len
{
    reveal(shows);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] isset(rows(t, k, f), x) implies x < pm.states_len by { assert(pm.far(s, j)(f, x)); lemma_far_range(pm, s, j, f, x); }
}
proof fn lemma_none_grown(pm: PhraseMatcher, t: Seq<u32>, k: int, r: spec_fn(int, int) -> bool)
    requires shows(t, k, pm.fuzz_limit as int, r)
    ensures shows(t, k, pm.fuzz_limit as int, pm.grown(r, 0))
{
    reveal(shows);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(t, k, f), x) == pm.grown(r, 0)(f, x) by { assert(isset(rows(t, k, f), x) == r(f, x)); }
}
proof fn lemma_not_grown(pm: PhraseMatcher, t: Seq<u32>, k: int, r: spec_fn(int, int) -> bool, j: int)
    requires shows(t, k, pm.fuzz_limit as int, pm.grown(r, j)), 0 <= j, !pm.used(j)
    ensures shows(t, k, pm.fuzz_limit as int, pm.grown(r, j + 1))
{
    reveal(shows);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(t, k, f), x) == pm.grown(r, j + 1)(f, x) by { assert(isset(rows(t, k, f), x) == pm.grown(r, j)(f, x)); }
}
proof fn lemma_grown(pm: PhraseMatcher, s: Seq<u32>, u0: Seq<u32>, u: Seq<u32>, k: int, r: spec_fn(int, int) -> bool, j: int)
    requires shows(s, k, pm.fuzz_limit as int, r), shows(u0, k, pm.fuzz_limit as int, pm.grown(r, j)), stepped(pm.classes.keys()[j], pm.fuzz_limit as int, s, k, u0, u, k), 0 <= j, pm.used(j)
    ensures shows(u, k, pm.fuzz_limit as int, pm.grown(r, j + 1))
{
    reveal(shows);
    let t = pm.classes.keys()[j];
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(u, k, f), x) == pm.grown(r, j + 1)(f, x) by {
        assert(isset(rows(u, k, f), x) == (isset(rows(u0, k, f), x) || through(t, s, k, f, x)));
        assert(isset(rows(u0, k, f), x) == pm.grown(r, j)(f, x));
        if through(t, s, k, f, x) {
            let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] isset(rows(s, k, g), d) && isset(at(t, d, f - g), x);
            assert(r(g, d));
            assert(leads(pm.classes.keys()[j], r, f, x));
        }
        if pm.grown(r, j + 1)(f, x) && !pm.grown(r, j)(f, x) {
            assert(leads(t, r, f, x));
            let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(t, d, f - g), x);
            assert(isset(rows(s, k, g), d));
        }
    }
}
/// Nothing new: more words lead nowhere else
proof fn lemma_saturated(pm: PhraseMatcher, t: Seq<u32>, k: int, s: spec_fn(int, int) -> bool, i: int, j: int, f: int, x: int)
    requires shows(t, k, pm.fuzz_limit as int, pm.far(s, i)), shows(t, k, pm.fuzz_limit as int, pm.far(s, i + 1)), 0 <= i <= j, 0 <= f < pm.fuzz_limit, pm.far(s, j)(f, x)
    ensures pm.far(s, i)(f, x)
    decreases j
{
    if i < j {
        let r = pm.far(s, j - 1);
        let n = pm.classes.keys().len() as int;
        if r(f, x) { lemma_saturated(pm, t, k, s, i, j - 1, f, x); } else {
            let c = choose|c: int| 0 <= c < n && pm.used(c) && leads(#[trigger] pm.classes.keys()[c], r, f, x);
            let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(pm.classes.keys()[c], d, f - g), x);
            lemma_saturated(pm, t, k, s, i, j - 1, g, d);
            let q = pm.far(s, i);
            assert(q(g, d));
            assert(leads(pm.classes.keys()[c], q, f, x));
            assert(pm.grown(q, n)(f, x));
            assert(pm.far(s, i + 1) == pm.grown(q, n));
            reveal(shows);
            assert(isset(rows(t, k, f), x) == pm.far(s, i + 1)(f, x));
        }
    }
}
/// The rows contain all that `j` words lead to
#[verifier::opaque]
pub open spec fn contains_far(pm: PhraseMatcher, t: Seq<u32>, k: int, s: spec_fn(int, int) -> bool, j: int) -> bool { forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.far(s, j)(f, x) ==> 0 <= x < pm.states_len && isset(rows(t, k, f), x) }
proof fn lemma_all_far(pm: PhraseMatcher, t: Seq<u32>, k: int, s: spec_fn(int, int) -> bool, i: int, j: int)
    requires pm.tidy(), bounded(pm, s), shows(t, k, pm.fuzz_limit as int, pm.far(s, i)), 0 <= i <= j, i == j || shows(t, k, pm.fuzz_limit as int, pm.far(s, i + 1))
    ensures contains_far(pm, t, k, s, j), forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] isset(rows(t, k, f), x) ==> x < pm.states_len
{
    reveal(contains_far);
    lemma_far_shown(pm, t, k, s, i);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.far(s, j)(f, x) implies 0 <= x < pm.states_len && isset(rows(t, k, f), x) by {
        lemma_far_range(pm, s, j, f, x);
        if i < j { lemma_saturated(pm, t, k, s, i, j, f, x); }
        reveal(shows);
        assert(isset(rows(t, k, f), x) == pm.far(s, i)(f, x));
    }
}
/// A set in the row without edits
proof fn lemma_one_row(pm: PhraseMatcher, t: BitSet2D, u: BitSet2D, x: Seq<u32>, s: spec_fn(int, int) -> bool)
    requires pm.ok(), pm.tidy(), dims2(t, pm.fuzz_limit as int, pm.states_len as int), no_bits(t.blocks@), u.size == t.size, u.blocks@ == t.with_row(0usize, x), x.len() == blocks_for(pm.states_len as int),
        forall|f: int, y: int| #[trigger] s(f, y) == (f == 0 && isset(x, y))
    ensures dims2(u, pm.fuzz_limit as int, pm.states_len as int), shows(u.blocks@, blocks_for(pm.states_len as int), pm.fuzz_limit as int, pm.far(s, 0))
{
    reveal(shows);
    let b = pm.fuzz_limit as int; let n = pm.states_len as int; let k = blocks_for(n);
    lemma_sized(pm);
    assert(u.blocks@ == t.with_row(0int as usize, x));
    lemma_with_row2(t, u, b, n, 0);
    assert forall|f: int, y: int| 0 <= f < b implies #[trigger] isset(rows(u.blocks@, k, f), y) == pm.far(s, 0)(f, y) by {
        lemma_row2(t, b, n, f); lemma_row2(u, b, n, f);
        assert(rows(u.blocks@, k, f) == at2(u, f));
        if f == 0 { assert(at2(u, 0) == x); } else {
            assert(0 <= k * f) by (nonlinear_arith) requires 0 <= k, 0 <= f;
            assert(k * f + k <= t.blocks@.len()) by { assert(k * f + k <= b * k) by (nonlinear_arith) requires 0 <= k, f + 1 <= b; }
            lemma_no_bits_in(t.blocks@, k * f, k * f + k);
            assert(at2(u, f) == at2(t, f));
        }
    }
}

// ---- what remains of the classes and the words

impl ClassMap {
    #[verifier::external_body]
    pub fn value_mut(&mut self, i: usize) -> (r: &mut WordClass)
        requires old(self).ok(), i < old(self).keys().len()
        ensures *r == old(self).values()[i as int], final(self).ok(), final(self).keys() == old(self).keys(), final(self).values() == old(self).values().update(i as int, *final(r)) { unimplemented!() }
}
impl<'a> Entry<'a> {
    /// (`or_insert_with` the default)
    #[verifier::external_body]
    pub fn or_default_(self)
        ensures self is Occupied ==> *final(self->Occupied_0.map) == *self->Occupied_0.map,
            self is Vacant ==> final(self->Vacant_0.map).ok() && final(self->Vacant_0.map).keys() == self->Vacant_0.map.keys().push(self->Vacant_0.key) && final(self->Vacant_0.map).values() == self->Vacant_0.map.values().push(WordClass { words_count: 0, min_tranche: 0 }) { unimplemented!() }
}
pub fn same_index(x: Option<usize>, y: Option<usize>) -> (r: bool) ensures r == (x == y) { match (x, y) { (Some(i), Some(j)) => i == j, (None, None) => true, _ => false } }
#[verifier::external_body]
pub fn indexes(n: usize) -> (r: Vec<usize>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { vec![0; n] }
pub open spec fn same_word(x: &Word, y: &Word) -> bool { x.tranche == y.tranche && x.chars@ == y.chars@ && x.text@ == y.text@ && x.score == y.score }
#[verifier::external_body]
pub fn equal_words(x: &Word, y: &Word) -> (r: bool) ensures r == same_word(x, y) { unimplemented!() }
pub open spec fn chosen(xs: Seq<&Word>, ys: Seq<&Word>, g: Seq<int>) -> bool { into(g, xs.len() as int) && g.len() == ys.len() && forall|t: int| 0 <= t < ys.len() ==> same_word(xs[g[t]], #[trigger] ys[t]) }
/// The words `ys` are some of `xs`
#[verifier::opaque]
pub open spec fn embedded(xs: Seq<&Word>, ys: Seq<&Word>) -> bool { exists|g: Seq<int>| chosen(xs, ys, g) }
impl PhraseMatcher {
    /// Nothing but the words has changed
    pub open spec fn like(self, o: Self) -> bool { self.expression == o.expression && self.states_len == o.states_len && self.fuzz_limit == o.fuzz_limit && self.start_states == o.start_states && self.classes.keys() == o.classes.keys() }
}
impl<'word> WordMatcher<'word> {
    pub open spec fn paired(self) -> bool { self.alive_wordlist@.len() == self.phrase_matcher.word_classes@.len() && forall|w: int| 0 <= w < self.phrase_matcher.word_classes@.len() ==> #[trigger] self.phrase_matcher.word_classes@[w] < self.phrase_matcher.classes.keys().len() }
    /// No word has the class of those which lead nowhere
    #[verifier::opaque]
    pub open spec fn named(self) -> bool { self.alive_wordlist@.len() == 0 || forall|w: int| 0 <= w < self.phrase_matcher.word_classes@.len() ==> #[trigger] self.phrase_matcher.word_classes@[w] != 0 }
    /// The words `ys` are left, where they have a class (`g` are their indexes, `m` tells which ones)
    #[verifier::opaque]
    pub open spec fn narrowed(self, next: Self, ys: Seq<&'word Word>, g: Seq<int>, m: Seq<int>) -> bool {
        let (wc, wc2) = (self.phrase_matcher.word_classes@, next.phrase_matcher.word_classes@);
        &&& chosen(self.alive_wordlist@, ys, g) && into(m, ys.len() as int) && next.alive_wordlist@.len() == m.len() == wc2.len()
        &&& picked(self.alive_wordlist@, wc, next.alive_wordlist@, wc2, g, m)
        &&& forall|t: int| 0 <= t < ys.len() && wc[#[trigger] g[t]] != 0 ==> m.contains(t)
        &&& next.phrase_matcher.like(self.phrase_matcher)
    }
    /// The words `idx` are left
    #[verifier::opaque]
    pub open spec fn left(self, next: Self, idx: Seq<int>) -> bool { into(idx, self.alive_wordlist@.len() as int) && next.alive_wordlist@.len() == idx.len() && forall|j: int| 0 <= j < idx.len() ==> #[trigger] next.alive_wordlist@[j] == self.alive_wordlist@[idx[j]] }
}
/// Of the first `done` words, the words `idx` are left, with classes as in the map
#[verifier::opaque]
pub open spec fn renamed(al: Seq<&Word>, wc: Seq<usize>, map: Seq<usize>, done: int, al2: Seq<&Word>, wc2: Seq<usize>, idx: Seq<int>) -> bool {
    &&& into(idx, done) && al2.len() == idx.len() == wc2.len()
    &&& forall|j: int| 0 <= j < idx.len() ==> #[trigger] al2[j] == al[idx[j]]
    &&& forall|j: int| 0 <= j < idx.len() ==> #[trigger] wc2[j] == map[wc[idx[j]] as int] && wc2[j] != 0
    &&& forall|w: int| 0 <= w < done && map[#[trigger] wc[w] as int] != 0 ==> idx.contains(w)
}
proof fn lemma_renamed(al: Seq<&Word>, wc: Seq<usize>, map: Seq<usize>, done: int, al2: Seq<&Word>, wc2: Seq<usize>, idx: Seq<int>)
    requires renamed(al, wc, map, done, al2, wc2, idx), 0 <= done < al.len(), wc.len() == al.len()
    ensures map[wc[done] as int] == 0 ==> renamed(al, wc, map, done + 1, al2, wc2, idx),
        map[wc[done] as int] != 0 ==> renamed(al, wc, map, done + 1, al2.push(al[done]), wc2.push(map[wc[done] as int]), idx.push(done)),
        idx.len() <= done, al2.len() == idx.len() == wc2.len()
{
    reveal(renamed);
    lemma_rising(idx, done);
    if map[wc[done] as int] != 0 {
        let (al3, wc3, idx3) = (al2.push(al[done]), wc2.push(map[wc[done] as int]), idx.push(done));
        assert(into(idx3, done + 1)) by { assert forall|i: int| 0 <= i < idx.len() implies #[trigger] idx[i] < done by {} assert forall|i: int| 0 <= i < idx3.len() implies 0 <= #[trigger] idx3[i] < done + 1 by { if i < idx.len() { assert(0 <= idx[i] < done); } } }
        assert forall|j: int| 0 <= j < idx3.len() implies #[trigger] al3[j] == al[idx3[j]] by { if j < idx.len() { assert(al3[j] == al2[j]); } }
        assert forall|j: int| 0 <= j < idx3.len() implies #[trigger] wc3[j] == map[wc[idx3[j]] as int] && wc3[j] != 0 by { if j < idx.len() { assert(wc3[j] == wc2[j]); } }
        assert forall|w: int| 0 <= w < done + 1 && map[#[trigger] wc[w] as int] != 0 implies idx3.contains(w) by {
            if w < done { assert(idx.contains(w)); let j = choose|j: int| 0 <= j < idx.len() && idx[j] == w; assert(idx3[j] == w); } else { assert(idx3[idx.len() as int] == w); }
        }
    } else {
        assert(into(idx, done + 1)) by { assert forall|i: int| 0 <= i < idx.len() implies 0 <= #[trigger] idx[i] < done + 1 by { assert(0 <= idx[i] < done); } }
    }
}
pub proof fn lemma_rising(m: Seq<int>, n: int)
    requires into(m, n), 0 <= n
    ensures m.len() <= n
    decreases m.len()
{
    if m.len() > 0 {
        let (l, m0) = (m.len() - 1, m.drop_last());
        assert(0 <= m[l] < n);
        assert(into(m0, m[l])) by { assert forall|i: int| 0 <= i < m0.len() implies 0 <= #[trigger] m0[i] < m[l] by { assert(m[i] < m[l]); assert(0 <= m[i] < n); } assert forall|i: int, j: int| 0 <= i < j < m0.len() implies m0[i] < m0[j] by { assert(m[i] < m[j]); } }
        lemma_rising(m0, m[l]);
    }
}
/// The new matcher is what is left of the old one
proof fn lemma_shrunk(pm: PhraseMatcher, al: Seq<&Word>, next: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>, map: Seq<usize>, new: ClassMap, al2: Seq<&Word>, idx: Seq<int>)
    requires pm.settled(al.len() as int), pm.ok(), pm.folded(a, red), reclassed(red, pm.fuzz_limit as int, pm.classes, pm.classes.keys().len() as int, map, new),
        renamed(al, pm.word_classes@, map, al.len() as int, al2, next.word_classes@, idx), next.classes.keys() == new.keys(), next.states_len == count(red, red.len() as int), next.fuzz_limit == pm.fuzz_limit, restarted(red, pm.start_states.blocks@, next.start_states.blocks@)
    ensures shrunk(pm, al.len() as int, next, a, red, idx)
{
    reveal(PhraseMatcher::settled); reveal(PhraseMatcher::ok); reveal(reclassed); reveal(renamed); reveal(shrunk);
    let (n, b, nn) = (al.len() as int, pm.fuzz_limit as int, next.states_len as int);
    let wc = pm.word_classes@;
    assert forall|w: int| 0 <= w < idx.len() implies remapped(red, b, pm.table(idx[w]), #[trigger] next.table(w)) by { assert(0 <= idx[w] < n); assert(next.word_classes@[w] == map[wc[idx[w]] as int]); assert(pm.used(wc[idx[w]] as int)); }
    assert forall|w: int| 0 <= w < n && !(#[trigger] idx.contains(w)) implies exists|u: BitSet3D| #[trigger] remapped(red, b, pm.table(w), u) && !matters(u, nn, b) by {
        let k = wc[w] as int;
        assert(pm.used(k));
        assert(map[k] == 0);
        let u = new.keys()[0];
        assert(remapped(red, b, pm.table(w), new.keys()[map[k] as int]));
        lemma_dead(u, nn, b);
    }
}
proof fn lemma_dead(u: BitSet3D, n: int, b: int)
    requires no_bits(u.blocks@), dims(u, n, b, n)
    ensures forall|s: int, f: int, x: int| 0 <= s < n && 0 <= f < b ==> !#[trigger] isset(at(u, s, f), x)
{
    assert forall|s: int, f: int, x: int| 0 <= s < n && 0 <= f < b implies !#[trigger] isset(at(u, s, f), x) by {
        lemma_row(u, n, b, n, s, f); lemma_index(n, b, blocks_for(n), s, f);
        lemma_no_bits_in(u.blocks@, blocks_for(n) * (b * s + f), blocks_for(n) * (b * s + f) + blocks_for(n));
    }
}
/// The words which are kept
#[verifier::opaque]
pub open spec fn picked(al: Seq<&Word>, wc: Seq<usize>, al2: Seq<&Word>, wc2: Seq<usize>, g: Seq<int>, m: Seq<int>) -> bool {
    al2.len() == wc2.len() == m.len() && (forall|j: int| 0 <= j < m.len() ==> #[trigger] al2[j] == al[g[m[j]]]) && (forall|j: int| 0 <= j < m.len() ==> #[trigger] wc2[j] == wc[g[m[j]]] && wc2[j] != 0)
}
proof fn lemma_picked(al: Seq<&Word>, wc: Seq<usize>, al2: Seq<&Word>, wc2: Seq<usize>, g: Seq<int>, m: Seq<int>, w: int)
    requires picked(al, wc, al2, wc2, g, m), within(m, g.len() as int), wc.len() == al.len(), 0 <= w < al.len()
    ensures picked(al, wc, al2, wc2, g.push(w), m), wc[w] != 0 ==> picked(al, wc, al2.push(al[w]), wc2.push(wc[w]), g.push(w), m.push(g.len() as int))
{
    reveal(picked);
    let g2 = g.push(w);
    assert forall|j: int| 0 <= j < m.len() implies #[trigger] al2[j] == al[g2[m[j]]] by { assert(0 <= m[j] < g.len()); assert(g2[m[j]] == g[m[j]]); }
    assert forall|j: int| 0 <= j < m.len() implies #[trigger] wc2[j] == wc[g2[m[j]]] && wc2[j] != 0 by { assert(0 <= m[j] < g.len()); assert(g2[m[j]] == g[m[j]]); }
    if wc[w] != 0 {
        let (al3, wc3, m3) = (al2.push(al[w]), wc2.push(wc[w]), m.push(g.len() as int));
        assert forall|j: int| 0 <= j < m3.len() implies #[trigger] al3[j] == al[g2[m3[j]]] by { if j < m.len() { assert(0 <= m[j] < g.len()); assert(al3[j] == al2[j]); assert(g2[m3[j]] == g[m[j]]); } }
        assert forall|j: int| 0 <= j < m3.len() implies #[trigger] wc3[j] == wc[g2[m3[j]]] && wc3[j] != 0 by { if j < m.len() { assert(wc3[j] == wc2[j]); assert(0 <= m[j] < g.len()); assert(g2[m3[j]] == g[m[j]]); } }
    }
}
proof fn lemma_into_push(m: Seq<int>, x: int, n: int)
    requires into(m, n), forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] < x, 0 <= x < n
    ensures into(m.push(x), n)
{ assert forall|i: int| 0 <= i < m.push(x).len() implies 0 <= #[trigger] m.push(x)[i] < n by { if i < m.len() { assert(0 <= m[i] < n); } } }

// ---- the new tables

#[verifier::opaque]
pub open spec fn resolved(red: Seq<Option<usize>>) -> bool { forall|s: int| 0 <= s < red.len() && (#[trigger] red[s]) is Some ==> red[s]->0 < red.len() && (red[s]->0 == s || red[red[s]->0 as int] is None) }
#[verifier::opaque]
pub open spec fn indexed(red: Seq<Option<usize>>, ix: Seq<Option<usize>>) -> bool { ix.len() == red.len() && forall|s: int| 0 <= s < red.len() ==> #[trigger] ix[s] == (if red[s] is None { Some(count(red, s) as usize) } else { None }) }
pub open spec fn copies(red: Seq<Option<usize>>, t: BitSet3D, s: int, f: int, y: int, z: int) -> bool { becomes(red, s, y) && exists|d: int| stays(red, d, z) && #[trigger] isset(at(t, s, f), d) }
pub open spec fn copied(red: Seq<Option<usize>>, t: BitSet3D, n: int, f: int, y: int, z: int) -> bool { exists|s: int| 0 <= s < n && #[trigger] copies(red, t, s, f, y, z) }
/// The rows of the states before `s0` have been copied, and those of `s0` before `f0`
#[verifier::opaque]
pub open spec fn remapping(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D, s0: int, f0: int) -> bool {
    forall|y: int, f: int, z: int| 0 <= y < count(red, red.len() as int) && 0 <= f < b ==> #[trigger] isset(at(u, y, f), z) == (copied(red, t, s0, f, y, z) || (f < f0 && copies(red, t, s0, f, y, z)))
}
proof fn lemma_remapped(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D)
    requires remapping(red, b, t, u, red.len() as int, 0)
    ensures remapped(red, b, t, u)
{
    reveal(remapping); reveal(remapped);
    assert forall|y: int, f: int, z: int| 0 <= y < count(red, red.len() as int) && 0 <= f < b implies #[trigger] isset(at(u, y, f), z) == (exists|s: int, d: int| becomes(red, s, y) && stays(red, d, z) && #[trigger] isset(at(t, s, f), d)) by {
        assert(isset(at(u, y, f), z) == copied(red, t, red.len() as int, f, y, z));
        if exists|s: int, d: int| becomes(red, s, y) && stays(red, d, z) && #[trigger] isset(at(t, s, f), d) {
            let (s, d) = choose|s: int, d: int| becomes(red, s, y) && stays(red, d, z) && #[trigger] isset(at(t, s, f), d);
            assert(copies(red, t, s, f, y, z));
        }
        if copied(red, t, red.len() as int, f, y, z) {
            let s = choose|s: int| 0 <= s < red.len() && #[trigger] copies(red, t, s, f, y, z);
            let d = choose|d: int| stays(red, d, z) && #[trigger] isset(at(t, s, f), d);
            assert(becomes(red, s, y) && stays(red, d, z));
        }
    }
}
proof fn lemma_remapping_next(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D, s: int)
    requires remapping(red, b, t, u, s, if red[s] == Some(s as usize) { 0 } else { b }), 0 <= s < red.len()
    ensures remapping(red, b, t, u, s + 1, 0)
{
    reveal(remapping);
    assert forall|y: int, f: int, z: int| 0 <= y < count(red, red.len() as int) && 0 <= f < b implies #[trigger] isset(at(u, y, f), z) == copied(red, t, s + 1, f, y, z) by {
        if copied(red, t, s + 1, f, y, z) {
            let s1 = choose|s1: int| 0 <= s1 < s + 1 && #[trigger] copies(red, t, s1, f, y, z);
            if s1 < s { assert(copied(red, t, s, f, y, z)); }
        }
        if copied(red, t, s, f, y, z) { let s1 = choose|s1: int| 0 <= s1 < s && #[trigger] copies(red, t, s1, f, y, z); assert(copies(red, t, s1, f, y, z)); }
        if copies(red, t, s, f, y, z) { assert(becomes(red, s, y)); assert(copied(red, t, s + 1, f, y, z)); }
    }
}
proof fn lemma_remapping_row(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D, v: BitSet3D, s: int, f: int, y: int, x: Seq<u32>)
    requires remapping(red, b, t, u, s, f), 0 <= s < red.len(), 0 <= f < b, becomes(red, s, y), 0 <= y < count(red, red.len() as int), dims(u, count(red, red.len() as int), b, count(red, red.len() as int)), v.size == u.size, v.blocks@ == u.with_row((y as usize, f as usize), x), x.len() == blocks_for(count(red, red.len() as int)),
        forall|z: int| #[trigger] isset(x, z) == (isset(at(u, y, f), z) || exists|d: int| stays(red, d, z) && #[trigger] isset(at(t, s, f), d))
    ensures remapping(red, b, t, v, s, f + 1), dims(v, count(red, red.len() as int), b, count(red, red.len() as int))
{
    reveal(remapping);
    let n = count(red, red.len() as int);
    lemma_with_row(u, v, n, b, n, y, f);
    assert forall|y2: int, f2: int, z: int| 0 <= y2 < n && 0 <= f2 < b implies #[trigger] isset(at(v, y2, f2), z) == (copied(red, t, s, f2, y2, z) || (f2 < f + 1 && copies(red, t, s, f2, y2, z))) by {
        assert(isset(at(u, y2, f2), z) == (copied(red, t, s, f2, y2, z) || (f2 < f && copies(red, t, s, f2, y2, z))));
        if y2 == y && f2 == f { assert(at(v, y, f) == x); } else { assert(at(v, y2, f2) == at(u, y2, f2)); }
    }
}
proof fn lemma_remapping_none(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D)
    requires no_bits(u.blocks@), dims(u, count(red, red.len() as int), b, count(red, red.len() as int))
    ensures remapping(red, b, t, u, 0, 0)
{
    reveal(remapping);
    let n = count(red, red.len() as int);
    assert forall|y: int, f: int, z: int| 0 <= y < n && 0 <= f < b implies !#[trigger] isset(at(u, y, f), z) by {
        lemma_row(u, n, b, n, y, f); lemma_index(n, b, blocks_for(n), y, f);
        lemma_no_bits_in(u.blocks@, blocks_for(n) * (b * y + f), blocks_for(n) * (b * y + f) + blocks_for(n));
    }
}
/// A table of the new matcher
pub open spec fn proper(t: BitSet3D, n: int, b: int) -> bool { dims(t, n, b, n) && forall|y: int, f: int, z: int| 0 <= y < n && 0 <= f < b && #[trigger] isset(at(t, y, f), z) ==> z < n }
proof fn lemma_proper(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D)
    requires remapped(red, b, t, u), dims(u, count(red, red.len() as int), b, count(red, red.len() as int))
    ensures proper(u, count(red, red.len() as int), b)
{
    reveal(remapped);
    let n = count(red, red.len() as int);
    assert forall|y: int, f: int, z: int| 0 <= y < n && 0 <= f < b && #[trigger] isset(at(u, y, f), z) implies z < n by {
        let (s, d) = choose|s: int, d: int| becomes(red, s, y) && stays(red, d, z) && #[trigger] isset(at(t, s, f), d);
        lemma_count(red, d, red.len() as int);
    }
}
proof fn lemma_same_remapped(red: Seq<Option<usize>>, b: int, t: BitSet3D, u: BitSet3D, v: BitSet3D)
    requires remapped(red, b, t, u), same_key(v, u)
    ensures remapped(red, b, t, v)
{
    reveal(remapped);
    assert forall|y: int, f: int| at(v, y, f) == at(u, y, f) by {}
    assert forall|y: int, f: int, z: int| 0 <= y < count(red, red.len() as int) && 0 <= f < b implies #[trigger] isset(at(v, y, f), z) == (exists|s: int, d: int| becomes(red, s, y) && stays(red, d, z) && #[trigger] isset(at(t, s, f), d)) by { assert(isset(at(u, y, f), z) == isset(at(v, y, f), z)); }
}
/// The classes of the new matcher
#[verifier::opaque]
pub open spec fn reclassed(red: Seq<Option<usize>>, b: int, old: ClassMap, done: int, map: Seq<usize>, new: ClassMap) -> bool {
    let n = count(red, red.len() as int);
    &&& new.ok() && 1 <= new.keys().len() <= done + 1 && no_bits(new.keys()[0].blocks@) && map.len() == old.keys().len()
    &&& forall|k: int| 0 <= k < new.keys().len() ==> proper(#[trigger] new.keys()[k], n, b)
    &&& forall|k: int| 0 <= k < new.values().len() ==> (#[trigger] new.values()[k]) == (WordClass { words_count: 0, min_tranche: 0 })
    &&& forall|k: int| 0 <= k < done && old.values()[k].words_count > 0 ==> (#[trigger] map[k]) < new.keys().len() && remapped(red, b, old.keys()[k], new.keys()[map[k] as int])
}
proof fn lemma_reclassed_skip(red: Seq<Option<usize>>, b: int, old: ClassMap, done: int, map: Seq<usize>, new: ClassMap)
    requires reclassed(red, b, old, done, map, new), 0 <= done < old.values().len(), old.values()[done].words_count == 0
    ensures reclassed(red, b, old, done + 1, map, new)
{ reveal(reclassed); }
/// The class of a table: it is found, or it is a new one
proof fn lemma_reclassed_next(red: Seq<Option<usize>>, b: int, old: ClassMap, done: int, map: Seq<usize>, new: ClassMap, u: BitSet3D, j: usize, new2: ClassMap)
    requires reclassed(red, b, old, done, map, new), 0 <= done < old.keys().len(), remapped(red, b, old.keys()[done], u), dims(u, count(red, red.len() as int), b, count(red, red.len() as int)),
        (new2 == new && j < new.keys().len() && same_key(new.keys()[j as int], u)) || (new2.ok() && j == new.keys().len() && new2.keys() == new.keys().push(u) && new2.values() == new.values().push(WordClass { words_count: 0, min_tranche: 0 }))
    ensures reclassed(red, b, old, done + 1, map.update(done, j), new2)
{
    reveal(reclassed);
    let n = count(red, red.len() as int);
    let map2 = map.update(done, j);
    lemma_proper(red, b, old.keys()[done], u);
    assert(new2.keys()[0] == new.keys()[0]);
    assert forall|k: int| 0 <= k < new2.keys().len() implies proper(#[trigger] new2.keys()[k], n, b) by { if k < new.keys().len() { assert(proper(new.keys()[k], n, b)); assert(new2.keys()[k] == new.keys()[k]); } }
    assert forall|k: int| 0 <= k < new2.values().len() implies (#[trigger] new2.values()[k]) == (WordClass { words_count: 0, min_tranche: 0 }) by { if k < new.values().len() { assert(new2.values()[k] == new.values()[k]); } }
    assert forall|k: int| 0 <= k < done + 1 && old.values()[k].words_count > 0 implies (#[trigger] map2[k]) < new2.keys().len() && remapped(red, b, old.keys()[k], new2.keys()[map2[k] as int]) by {
        if k < done { assert(map2[k] == map[k]); assert(new2.keys()[map[k] as int] == new.keys()[map[k] as int]); }
        else if j < new.keys().len() { lemma_same_remapped(red, b, old.keys()[done], u, new2.keys()[j as int]); }
    }
}
proof fn lemma_reclassed_none(red: Seq<Option<usize>>, b: int, old: ClassMap, map: Seq<usize>, new: ClassMap, e: BitSet3D)
    requires new.ok(), new.keys() == Seq::<BitSet3D>::empty().push(e), new.values() == Seq::<WordClass>::empty().push(WordClass { words_count: 0, min_tranche: 0 }), map.len() == old.keys().len(),
        no_bits(e.blocks@), dims(e, count(red, red.len() as int), b, count(red, red.len() as int))
    ensures reclassed(red, b, old, 0, map, new)
{
    reveal(reclassed); reveal(remapped);
    let n = count(red, red.len() as int);
    assert forall|y: int, f: int, z: int| 0 <= y < n && 0 <= f < b && #[trigger] isset(at(e, y, f), z) implies z < n by {
        lemma_row(e, n, b, n, y, f); lemma_index(n, b, blocks_for(n), y, f);
        lemma_no_bits_in(e.blocks@, blocks_for(n) * (b * y + f), blocks_for(n) * (b * y + f) + blocks_for(n));
    }
}
// ---- phrases that are found

/// The symbols of a phrase
pub open spec fn text(al: Seq<&Word>, c: Seq<int>) -> Seq<Char> { joined(Seq::new(c.len(), |i: int| al[c[i]].chars@)) }
pub open spec fn deepest(q: Seq<SearchPhase>, d: int) -> bool { (forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).depth <= d) && exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).depth == d }
impl PhraseMatcher {
    /// It accepts the phrases of at most `d` words that the expression matches
    #[verifier::opaque]
    pub open spec fn speaks(self, al: Seq<&Word>, d: int) -> bool { forall|c: Seq<int>| within(c, al.len() as int) && 1 <= c.len() <= d ==> #[trigger] self.accepts(c) == finds(self.expression, text(al, c)) }
    #[verifier::opaque]
    pub open spec fn numbered(self, n: int) -> bool { n <= self.word_classes@.len() && forall|w: int| 0 <= w < n ==> 0 <= #[trigger] self.word_classes@[w] < self.classes.keys().len() }
}
impl<'word> WordMatcher<'word> {
    /// It tells which phrases of at most `d` words are matched
    #[verifier::opaque]
    pub open spec fn tight(self, d: int) -> bool {
        let pm = self.phrase_matcher; let n = self.alive_wordlist@.len() as int;
        n == 0 || (pm.ok() && pm.tidy() && self.paired() && pm.dead_first() && (pm.covered(n) || pm.none_accepted(n, d)) && pm.speaks(self.alive_wordlist@, d))
    }
    /// Its words are some of `ys` (`m` tells which ones), among them all words of the phrases that are matched
    #[verifier::opaque]
    pub open spec fn enough(self, ys: Seq<&Word>, m: Seq<int>, d: int) -> bool {
        let al = self.alive_wordlist@;
        &&& into(m, ys.len() as int) && m.len() == al.len() && forall|j: int| 0 <= j < m.len() ==> same_word(ys[#[trigger] m[j]], al[j])
        &&& forall|c: Seq<int>, i: int| within(c, ys.len() as int) && 1 <= c.len() <= d && finds(self.phrase_matcher.expression, text(ys, c)) && 0 <= i < c.len() ==> m.contains(#[trigger] c[i])
    }
}
proof fn lemma_numbered(pm: PhraseMatcher, n: int, c: Seq<int>, xs: Seq<int>, fs: Seq<int>, i: int)
    requires pm.run(c, xs, fs), pm.tidy(), pm.numbered(n), within(c, n), fs.last() < pm.fuzz_limit, 0 <= i <= c.len()
    ensures 0 <= xs[i] < pm.states_len
    decreases i
{
    reveal(PhraseMatcher::tidy); reveal(PhraseMatcher::numbered);
    if i > 0 {
        lemma_numbered(pm, n, c, xs, fs, i - 1);
        assert(pm.hop(c, xs, fs, i - 1));
        lemma_run_edits(pm, c, xs, fs, i - 1, c.len() as int);
        lemma_run_edits(pm, c, xs, fs, i, c.len() as int);
        let k = pm.word_classes@[c[i - 1]] as int;
        assert(isset(at(pm.classes.keys()[k], xs[i - 1], fs[i] - fs[i - 1]), xs[i]));
    }
}
/// A word whose class is the first is not part of a phrase
proof fn lemma_not_first(pm: PhraseMatcher, n: int, c: Seq<int>, i: int)
    requires pm.tidy(), pm.numbered(n), pm.dead_first(), within(c, n), pm.accepts(c), 0 <= i < c.len()
    ensures pm.word_classes@[c[i]] != 0
{
    reveal(PhraseMatcher::numbered);
    let (xs, fs) = lemma_accepting(pm, c);
    lemma_numbered(pm, n, c, xs, fs, i);
    lemma_run_edits(pm, c, xs, fs, i, c.len() as int);
    lemma_run_edits(pm, c, xs, fs, i, i + 1);
    lemma_run_edits(pm, c, xs, fs, i + 1, c.len() as int);
    assert(pm.hop(c, xs, fs, i));
    assert(isset(at(pm.table(c[i]), xs[i], fs[i + 1] - fs[i]), xs[i + 1]));
}
pub proof fn lemma_text(al: Seq<&Word>, al2: Seq<&Word>, m: Seq<int>, c: Seq<int>)
    requires within(c, al2.len() as int), m.len() == al2.len(), forall|j: int| 0 <= j < m.len() ==> al[#[trigger] m[j]].chars@ == al2[j].chars@
    ensures text(al2, c) == text(al, comp(c, m))
{
    let cc = comp(c, m);
    assert forall|i: int| 0 <= i < c.len() implies al2[#[trigger] c[i]].chars@ == al[cc[i]].chars@ by { assert(0 <= c[i] < al2.len()); assert(al[m[c[i]]].chars@ == al2[c[i]].chars@); }
    let (x, y) = (Seq::new(c.len(), |i: int| al2[c[i]].chars@), Seq::new(cc.len(), |i: int| al[cc[i]].chars@));
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] x[i] == y[i] by { assert(al2[c[i]].chars@ == al[cc[i]].chars@); }
    assert(x =~= y);
}
pub proof fn lemma_within(c: Seq<int>, m: Seq<int>, k: int, n: int)
    requires within(c, k), within(m, n), k <= m.len()
    ensures within(comp(c, m), n), comp(c, m).len() == c.len()
{
    let cc = comp(c, m);
    assert forall|i: int| 0 <= i < cc.len() implies 0 <= #[trigger] cc[i] < n by { assert(0 <= c[i] < k); assert(0 <= m[c[i]] < n); }
}
/// All of the indexes are among `m`
pub proof fn lemma_uncomp(c: Seq<int>, m: Seq<int>) -> (r: Seq<int>)
    requires forall|i: int| 0 <= i < c.len() ==> m.contains(#[trigger] c[i])
    ensures within(r, m.len() as int), c == comp(r, m), r.len() == c.len()
{
    let r = Seq::new(c.len(), |i: int| choose|j: int| 0 <= j < m.len() && m[j] == c[i]);
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] r[i] < m.len() && m[r[i]] == c[i] by { assert(m.contains(c[i])); }
    assert(comp(r, m) =~= c);
    r
}
pub proof fn lemma_comp_one(c: Seq<int>, r: Seq<int>, m: Seq<int>)
    requires rising(m), within(c, m.len() as int), within(r, m.len() as int), comp(c, m) == comp(r, m)
    ensures c == r
{
    assert(comp(c, m).len() == c.len() && comp(r, m).len() == r.len());
    assert forall|i: int| 0 <= i < c.len() implies c[i] == r[i] by {
        assert(comp(c, m)[i] == m[c[i]] && comp(r, m)[i] == m[r[i]]);
        assert(0 <= c[i] < m.len() && 0 <= r[i] < m.len());
    }
    assert(c =~= r);
}
pub proof fn lemma_comp_comp(c: Seq<int>, m: Seq<int>, g: Seq<int>, k: int)
    requires within(c, m.len() as int), within(m, k), k <= g.len()
    ensures comp(comp(c, m), g) == comp(c, comp(m, g))
{
    assert forall|i: int| 0 <= i < c.len() implies comp(comp(c, m), g)[i] == comp(c, comp(m, g))[i] by { assert(0 <= c[i] < m.len()); assert(0 <= m[c[i]] < k); }
    assert(comp(comp(c, m), g) =~= comp(c, comp(m, g)));
}
pub proof fn lemma_into_comp(m: Seq<int>, g: Seq<int>, n: int)
    requires into(m, g.len() as int), into(g, n)
    ensures into(comp(m, g), n)
{
    let x = comp(m, g);
    assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < n by { assert(0 <= m[i] < g.len()); assert(0 <= g[m[i]] < n); }
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies x[i] < x[j] by { assert(0 <= m[i] < g.len()); assert(0 <= m[j] < g.len()); assert(m[i] < m[j]); }
}
/// The same tables and start states, with some of the words
pub open spec fn some_words(pm: PhraseMatcher, pm1: PhraseMatcher, m: Seq<int>) -> bool { pm1.like(pm) && pm1.word_classes@.len() == m.len() && forall|j: int| 0 <= j < m.len() ==> #[trigger] pm1.word_classes@[j] == pm.word_classes@[m[j]] }
proof fn lemma_reaches_some(pm: PhraseMatcher, pm1: PhraseMatcher, m: Seq<int>, c: Seq<int>)
    requires some_words(pm, pm1, m), within(c, m.len() as int)
    ensures forall|f: int, x: int| #[trigger] pm1.reaches(c)(f, x) == pm.reaches(comp(c, m))(f, x)
    decreases c.len()
{
    let cc = comp(c, m);
    if c.len() > 0 {
        let c0 = c.drop_last();
        assert(within(c0, m.len() as int));
        assert(comp(c0, m) =~= cc.drop_last());
        lemma_reaches_some(pm, pm1, m, c0);
        let w = c.last();
        assert(0 <= c[c.len() - 1] < m.len());
        assert(pm1.word_classes@[w] == pm.word_classes@[m[w]]);
        assert(pm1.table(w) == pm.table(cc.last()));
        assert forall|f: int, x: int| #[trigger] pm1.reaches(c)(f, x) == pm.reaches(cc)(f, x) by {
            if pm1.reaches(c)(f, x) {
                let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] pm1.reaches(c0)(g, d) && isset(at(pm1.table(w), d, f - g), x);
                assert(pm.reaches(cc.drop_last())(g, d));
            }
            if pm.reaches(cc)(f, x) {
                let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] pm.reaches(cc.drop_last())(g, d) && isset(at(pm.table(cc.last()), d, f - g), x);
                assert(pm1.reaches(c0)(g, d));
            }
        }
    }
}
proof fn lemma_accepts_some(pm: PhraseMatcher, pm1: PhraseMatcher, m: Seq<int>, c: Seq<int>)
    requires some_words(pm, pm1, m), within(c, m.len() as int)
    ensures pm1.accepts(c) == pm.accepts(comp(c, m))
{
    lemma_reaches_some(pm, pm1, m, c);
    let x = pm.states_len - 1;
    if pm1.accepts(c) { let f = choose|f: int| 0 <= f < pm1.fuzz_limit && #[trigger] pm1.reaches(c)(f, x); assert(pm.reaches(comp(c, m))(f, x)); }
    if pm.accepts(comp(c, m)) { let f = choose|f: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.reaches(comp(c, m))(f, x); assert(pm1.reaches(c)(f, x)); }
}
/// With the words `ys`, where they have a class
proof fn lemma_tight_words(s: WordMatcher, s1: WordMatcher, ys: Seq<&Word>, g: Seq<int>, m: Seq<int>, d: int)
    requires s.tight(d), s.alive_wordlist@.len() > 0, s.narrowed(s1, ys, g, m), s1.phrase_matcher.ok(), s1.phrase_matcher.settled(s1.alive_wordlist@.len() as int)
    ensures s1.tight(d), s1.enough(ys, m, d), s1.phrase_matcher.tidy(), s1.paired()
{
    reveal(WordMatcher::tight); reveal(WordMatcher::narrowed); reveal(WordMatcher::enough); reveal(picked); reveal(PhraseMatcher::speaks);
    let (pm, pm1) = (s.phrase_matcher, s1.phrase_matcher);
    let (al, al1) = (s.alive_wordlist@, s1.alive_wordlist@);
    let n = al.len() as int;
    let idx = comp(m, g);
    lemma_into_comp(m, g, n);
    assert(pm.numbered(n)) by { reveal(PhraseMatcher::numbered); assert forall|w: int| 0 <= w < n implies 0 <= #[trigger] pm.word_classes@[w] < pm.classes.keys().len() by {} }
    assert(pm1.tidy()) by { reveal(PhraseMatcher::tidy); }
    assert(s1.paired()) by { reveal(PhraseMatcher::settled); assert forall|w: int| 0 <= w < pm1.word_classes@.len() implies #[trigger] pm1.word_classes@[w] < pm1.classes.keys().len() by {} }
    assert(some_words(pm, pm1, idx)) by { assert forall|j: int| 0 <= j < idx.len() implies #[trigger] pm1.word_classes@[j] == pm.word_classes@[idx[j]] by { assert(pm1.word_classes@[j] == pm.word_classes@[g[m[j]]]); } }
    assert forall|j: int| 0 <= j < idx.len() implies al[#[trigger] idx[j]].chars@ == al1[j].chars@ by { assert(al1[j] == al[g[m[j]]]); }
    assert forall|c: Seq<int>| within(c, al1.len() as int) && 1 <= c.len() <= d implies #[trigger] pm1.accepts(c) == finds(pm1.expression, text(al1, c)) by {
        lemma_accepts_some(pm, pm1, idx, c);
        lemma_text(al, al1, idx, c);
        lemma_within(c, idx, idx.len() as int, n);
        assert(pm.accepts(comp(c, idx)) == finds(pm.expression, text(al, comp(c, idx))));
    }
    if pm.none_accepted(n, d) {
        assert forall|c: Seq<int>| within(c, al1.len() as int) && 1 <= c.len() <= d implies !#[trigger] pm1.accepts(c) by { lemma_accepts_some(pm, pm1, idx, c); lemma_within(c, idx, idx.len() as int, n); assert(!pm.accepts(comp(c, idx))); }
        assert(pm1.none_accepted(al1.len() as int, d));
    } else {
        assert(pm.covered(n));
        reveal(PhraseMatcher::covered);
        assert forall|w: int, x: int, f: int, y: int| 0 <= w < al1.len() && isset(pm1.start_states.blocks@, x) && 0 <= f < pm1.fuzz_limit && #[trigger] isset(at(pm1.table(w), x, f), y) implies has(pm1.table(w), 0, f, y) by {
            assert(pm1.word_classes@[w] == pm.word_classes@[idx[w]]);
            assert(0 <= idx[w] < n);
            assert(isset(at(pm.table(idx[w]), x, f), y));
        }
    }
    assert forall|j: int| 0 <= j < m.len() implies same_word(ys[#[trigger] m[j]], al1[j]) by { assert(0 <= m[j] < ys.len()); assert(same_word(al[g[m[j]]], ys[m[j]])); assert(al1[j] == al[g[m[j]]]); }
    assert forall|c: Seq<int>, i: int| within(c, ys.len() as int) && 1 <= c.len() <= d && finds(pm1.expression, text(ys, c)) && 0 <= i < c.len() implies m.contains(#[trigger] c[i]) by {
        assert forall|t: int| 0 <= t < g.len() implies al[#[trigger] g[t]].chars@ == ys[t].chars@ by { assert(same_word(al[g[t]], ys[t])); }
        lemma_text(al, ys, g, c);
        lemma_within(c, g, g.len() as int, n);
        let cc = comp(c, g);
        assert(pm.accepts(cc) == finds(pm.expression, text(al, cc)));
        lemma_not_first(pm, n, cc, i);
        assert(cc[i] == g[c[i]]);
        assert(0 <= c[i] < ys.len());
    }
}
/// With fewer states
proof fn lemma_tight_states(s: WordMatcher, s1: WordMatcher, ys: Seq<&Word>, m: Seq<int>, a: Seq<u32>, red: Seq<Option<usize>>, idx: Seq<int>, d: int)
    requires s.tight(d), s.enough(ys, m, d), s.phrase_matcher.settled(s.alive_wordlist@.len() as int), shrunk(s.phrase_matcher, s.alive_wordlist@.len() as int, s1.phrase_matcher, a, red, idx), s.left(s1, idx), living(s.phrase_matcher, d, a),
        s1.phrase_matcher.expression == s.phrase_matcher.expression, s1.phrase_matcher.ok(), s1.phrase_matcher.tidy(), s1.phrase_matcher.dead_first(), s1.paired()
    ensures s1.tight(d), s1.enough(ys, comp(idx, m), d)
{
    reveal(WordMatcher::tight); reveal(WordMatcher::enough); reveal(WordMatcher::left); reveal(PhraseMatcher::speaks);
    let (pm, pm1) = (s.phrase_matcher, s1.phrase_matcher);
    let (al, al1) = (s.alive_wordlist@, s1.alive_wordlist@);
    let (n, k, e) = (al.len() as int, idx.len() as int, pm.expression);
    if n == 0 {
        lemma_rising(idx, n);
        assert(comp(idx, m) =~= m);
        return;
    }
    lemma_still_covered(pm, n, d, pm1, a, red, idx);
    assert forall|j: int| 0 <= j < k implies al[#[trigger] idx[j]].chars@ == al1[j].chars@ by { assert(al1[j] == al[idx[j]]); }
    assert forall|c: Seq<int>| within(c, k) && 1 <= c.len() <= d implies #[trigger] pm1.accepts(c) == finds(e, text(al1, c)) by {
        let cc = comp(c, idx);
        lemma_text(al, al1, idx, c);
        lemma_within(c, idx, k, n);
        assert(pm.accepts(cc) == finds(e, text(al, cc)));
        if pm1.accepts(c) { lemma_back_again(pm, n, pm1, a, red, idx, c); }
        if pm.accepts(cc) { let r = lemma_ahead(pm, n, d, pm1, a, red, idx, cc); lemma_comp_one(c, r, idx); }
    }
    let m1 = comp(idx, m);
    lemma_into_comp(idx, m, ys.len() as int);
    assert forall|j: int| 0 <= j < m1.len() implies same_word(ys[#[trigger] m1[j]], al1[j]) by { assert(0 <= idx[j] < n); assert(same_word(ys[m[idx[j]]], al[idx[j]])); assert(al1[j] == al[idx[j]]); }
    assert forall|c: Seq<int>, i: int| within(c, ys.len() as int) && 1 <= c.len() <= d && finds(e, text(ys, c)) && 0 <= i < c.len() implies m1.contains(#[trigger] c[i]) by {
        assert forall|i: int| 0 <= i < c.len() implies m.contains(#[trigger] c[i]) by {}
        let c1 = lemma_uncomp(c, m);
        assert forall|j: int| 0 <= j < m.len() implies ys[#[trigger] m[j]].chars@ == al[j].chars@ by { assert(same_word(ys[m[j]], al[j])); }
        lemma_text(ys, al, m, c1);
        assert(pm.accepts(c1) == finds(e, text(al, c1)));
        let r = lemma_ahead(pm, n, d, pm1, a, red, idx, c1);
        assert(0 <= r[i] < k);
        assert(c1[i] == idx[r[i]]);
        assert(c[i] == m[c1[i]]);
        assert(m1[r[i]] == c[i]);
    }
}
/// Without the last state: there are no phrases
proof fn lemma_tight_none(s: WordMatcher, s1: WordMatcher, ys: Seq<&Word>, m: Seq<int>, a: Seq<u32>, d: int)
    requires s.tight(d), s.enough(ys, m, d), s.phrase_matcher.settled(s.alive_wordlist@.len() as int), s.phrase_matcher.tidy(), living(s.phrase_matcher, d, a), !isset(a, s.phrase_matcher.states_len - 1),
        s1.phrase_matcher.expression == s.phrase_matcher.expression, s1.alive_wordlist@.len() == 0
    ensures s1.tight(d), s1.enough(ys, Seq::empty(), d)
{
    reveal(WordMatcher::tight); reveal(WordMatcher::enough); reveal(PhraseMatcher::speaks);
    let pm = s.phrase_matcher;
    let al = s.alive_wordlist@;
    let n = al.len() as int;
    let z = Seq::<int>::empty();
    assert forall|c: Seq<int>, i: int| within(c, ys.len() as int) && 1 <= c.len() <= d && finds(pm.expression, text(ys, c)) && 0 <= i < c.len() implies z.contains(#[trigger] c[i]) by {
        assert forall|i: int| 0 <= i < c.len() implies m.contains(#[trigger] c[i]) by {}
        let c1 = lemma_uncomp(c, m);
        assert forall|j: int| 0 <= j < m.len() implies ys[#[trigger] m[j]].chars@ == al[j].chars@ by { assert(same_word(ys[m[j]], al[j])); }
        lemma_text(ys, al, m, c1);
        assert(0 <= c1[i] < n);
        assert(pm.accepts(c1) == finds(pm.expression, text(al, c1)));
        let (xs, fs) = lemma_accepting(pm, c1);
        lemma_living(pm, n, d, a, c1, xs, fs, c1.len() as int);
    }
}
pub open spec fn deepest_of(q: Seq<SearchPhase>) -> int { choose|d: int| deepest(q, d) }
pub proof fn lemma_deepest(q: Seq<SearchPhase>)
    requires q.len() > 0
    ensures deepest(q, deepest_of(q)), forall|d: int| #[trigger] deepest(q, d) ==> d == deepest_of(q)
{
    lemma_deepest_is(q);
    let x = deepest_of(q);
    assert forall|d: int| #[trigger] deepest(q, d) implies d == x by {
        let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).depth == d;
        let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).depth == x;
        assert(q[i].depth <= x && q[j].depth <= d);
    }
}
pub proof fn lemma_deepest_is(q: Seq<SearchPhase>)
    requires q.len() > 0
    ensures exists|d: int| deepest(q, d)
    decreases q.len()
{
    if q.len() == 1 { assert(q[0].depth == q[0].depth); assert(deepest(q, q[0].depth as int)); } else {
        let q0 = q.drop_last();
        lemma_deepest_is(q0);
        let d = choose|d: int| deepest(q0, d);
        let l = q.last().depth as int;
        let j = choose|j: int| 0 <= j < q0.len() && (#[trigger] q0[j]).depth == d;
        assert(q[j].depth == d);
        assert(q[q.len() - 1].depth == l);
        let x = if l > d { l } else { d };
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).depth <= x by { if i < q0.len() { assert(q0[i].depth <= d); } }
        assert(deepest(q, x));
    }
}
pub proof fn lemma_embedded_len(xs: Seq<&Word>, ys: Seq<&Word>)
    requires embedded(xs, ys)
    ensures ys.len() <= xs.len()
{
    reveal(embedded);
    let g = choose|g: Seq<int>| chosen(xs, ys, g);
    lemma_rising(g, xs.len() as int);
}
proof fn lemma_empty(s: WordMatcher, ys: Seq<&Word>, d: int)
    requires ys.len() == 0, s.alive_wordlist@.len() == 0
    ensures s.enough(ys, Seq::empty(), d)
{
    reveal(WordMatcher::enough);
    let z = Seq::<int>::empty();
    assert forall|c: Seq<int>, i: int| within(c, ys.len() as int) && 1 <= c.len() <= d && 0 <= i < c.len() implies z.contains(#[trigger] c[i]) by { let x = c[i]; assert(0 <= x < ys.len()); }
}
proof fn lemma_narrowed_len(s: WordMatcher, s1: WordMatcher, ys: Seq<&Word>, g: Seq<int>, m: Seq<int>)
    requires s.narrowed(s1, ys, g, m)
    ensures s1.alive_wordlist@.len() <= s.alive_wordlist@.len()
{
    reveal(WordMatcher::narrowed);
    lemma_rising(m, ys.len() as int);
    lemma_rising(g, s.alive_wordlist@.len() as int);
}
proof fn lemma_folded(pm: PhraseMatcher, a: Seq<u32>, red: Seq<Option<usize>>)
    requires pm.folded(a, red), pm.states_len >= 1
    ensures red.len() == pm.states_len, resolved(red), 1 <= count(red, red.len() as int) <= red.len()
{
    reveal(PhraseMatcher::folded); reveal(resolved);
    let n = red.len() as int;
    assert forall|s: int| 0 <= s < n && (#[trigger] red[s]) is Some implies red[s]->0 < n && (red[s]->0 == s || red[red[s]->0 as int] is None) by { assert(pm.folds(a, red, s)); }
    lemma_count(red, 0, n - 1);
    lemma_count(red, n - 1, n);
}
pub proof fn lemma_embedded(s: WordMatcher, ys: Seq<&Word>, m: Seq<int>, d: int)
    requires s.enough(ys, m, d)
    ensures embedded(ys, s.alive_wordlist@)
{
    reveal(WordMatcher::enough); reveal(embedded);
    let al = s.alive_wordlist@;
    assert forall|t: int| 0 <= t < al.len() implies same_word(ys[m[t]], #[trigger] al[t]) by { assert(same_word(ys[m[t]], al[t])); }
    assert(chosen(ys, al, m));
}
impl<'word> WordMatcher<'word> {
""")
    ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(120)]"
    START = "        let ghost pm = self.phrase_matcher; let ghost n = states_len as int; let ghost b = fuzz_limit as int; let ghost k = blocks_for(n); proof { usize_64(); lemma_sized(pm); reveal(PhraseMatcher::ok); }"
    CLASSES = ("for ($ia, $ib) in self.phrase_matcher.classes.iter() { $z }", "let mut c_: usize = 0; while c_ < self.phrase_matcher.classes.len() { let ($ia, $ib) = self.phrase_matcher.classes.get_index(c_).unwrap(); c_ += 1; $z }", EACH)
    DEPTHS = [("for ($ii, $ij) in valid_search_depths[1..].iter().enumerate() { $z }", "let mut d_: usize = 1; while d_ < valid_search_depths.len() { d_ += 1; $z }", EACH),
              ("for ($ii, $ij) in valid_search_depths.iter().enumerate() { $z }", "let mut d_: usize = 0; while d_ < valid_search_depths.len() { d_ += 1; $z }", EACH),
              ("if $ia == $ib {", "if same_table(&$ia, &$ib) {", ROWS)]

    calls = []

    def part(qual, pattern, head, f, body="$z", call=None):
        f.part = (pattern, head, body)
        calls.append((pattern, call, PART))
        f.attrs = f.attrs or ATTRS
        m.fn("optimize_for_wordlist", f, header="impl<'word> WordMatcher<'word>", qual="optimize_for_wordlist: " + qual)

    part("valid_search_depths", "let valid_search_depths: Vec<bool> = { $z };", "pub fn search_depths_(search_queue: &[SearchPhase]) -> Vec<bool>", Fn(
        sig="""    requires search_queue@.len() > 0, forall|i: int| 0 <= i < search_queue@.len() ==> (#[trigger] search_queue@[i]).depth < usize::MAX
    ensures r@.len() >= 1, forall|i: int| 0 <= i < search_queue@.len() ==> (#[trigger] search_queue@[i]).depth < r@.len(), exists|i: int| 0 <= i < search_queue@.len() && r@.len() == (#[trigger] search_queue@[i]).depth + 1""",
        rules=[("search_queue.iter().map(|$ip| $e).max().unwrap()", "{ let mut k_: usize = 1; let $ip = &search_queue[0]; let mut most_ = $e; while k_ < search_queue.len() { let $ip = &search_queue[k_]; let x_ = $e; if x_ >= most_ { most_ = x_; } k_ += 1; } most_ }", MOST),
               ("vec![false; $e]", "falses($e)", FLAGS),
               ("search_queue.iter().for_each(|$ip| $e);", "{ let mut k_: usize = 0; while k_ < search_queue.len() { let $ip = &search_queue[k_]; k_ += 1; $e; } }", EACH)],
        loops=[Loop("""            invariant 1 <= k_ <= search_queue@.len(), forall|i: int| 0 <= i < k_ ==> (#[trigger] search_queue@[i]).depth <= most_, exists|i: int| 0 <= i < k_ && most_ == (#[trigger] search_queue@[i]).depth, most_ < usize::MAX
            decreases search_queue@.len() - k_"""),
               Loop("""            invariant k_ <= search_queue@.len(), depths@.len() == size_
            decreases search_queue@.len() - k_""", before="let ghost size_ = depths@.len();")]), call='let valid_search_depths: Vec<bool> = Self::search_depths_(search_queue);')
    SIZES = "self.sized(states_len, fuzz_limit)"
    FAR = "shows({t}.blocks@, k, b, pm.far({s}, {j}))"
    part("reachable_srcs", "let reachable_srcs = { $z };", "pub fn reachable_srcs_(&self, valid_search_depths: &Vec<bool>, states_len: usize, fuzz_limit: usize) -> BitSet1D", Fn(
        sig=f"""    requires {SIZES}, valid_search_depths@.len() >= 1
    ensures r.blocks@.len() == blocks_for(states_len as int), forall|x: int| #[trigger] isset(r.blocks@, x) ==> x < states_len, forall|x: int| self.phrase_matcher.comes(valid_search_depths@.len() - 1, x) ==> #[trigger] isset(r.blocks@, x)""",
        rules=[CLASSES] + DEPTHS, start=START + " let ghost st_ = pm.started(); let ghost start_ = pm.start_states.blocks@; proof { assert(bounded(pm, st_)) by { reveal(PhraseMatcher::tidy); assert forall|f: int, x: int| 0 <= f < b && #[trigger] st_(f, x) implies 0 <= x < n by { assert(isset(start_, x)); } } }",
        at=[("reachable_fuzz_dst.slice_mut(0)", "before", "            let ghost t0_ = reachable_fuzz_dst; proof { lemma_row2(t0_, b, n, 0); lemma_unit(pm.start_states); reveal(PhraseMatcher::tidy); lemma_no_bits_in(t0_.blocks@, 0, k); }"),
            ("let mut reachable_srcs", "before", "            proof { lemma_all_far(pm, reachable_fuzz_dst.blocks@, k, st_, i_, valid_search_depths@.len() - 1); }"),
            ],
        loops=[Loop(f"""                invariant_except_break i_ == d_ - 1
                invariant dims2(reachable_fuzz_dst, b, n), {FAR.format(t='reachable_fuzz_dst', s='st_', j='i_')}, 1 <= d_ <= valid_search_depths@.len(), 0 <= i_ <= valid_search_depths@.len() - 1
                ensures i_ == valid_search_depths@.len() - 1 || {FAR.format(t='reachable_fuzz_dst', s='st_', j='i_ + 1')}
                decreases valid_search_depths@.len() - d_""",
                before="let ghost mut i_ = 0int; proof { let x_ = choose|x: Seq<u32>| x.len() == k && reachable_fuzz_dst.blocks@ == #[trigger] t0_.with_row(0usize, x) && forall|y: int| #[trigger] isset(x, y) == (isset(at2(t0_, 0), y) || isset(start_, y)); lemma_one_row(pm, t0_, reachable_fuzz_dst, x_, st_); }",
                start="                let ghost r_ = pm.far(st_, i_); proof { lemma_far_shown(pm, reachable_fuzz_dst.blocks@, k, st_, i_); }",
                end="                proof { i_ = i_ + 1; }"),
               Loop(f"""                    invariant c_ <= pm.classes.keys().len(), dims2(next_reachable_fuzz_dst, b, n), shows(next_reachable_fuzz_dst.blocks@, k, b, pm.grown(r_, c_ as int))
                    decreases pm.classes.keys().len() - c_""",
                    before="                proof { lemma_none_grown(pm, next_reachable_fuzz_dst.blocks@, k, r_); }",
                    start="                    let ghost u_ = next_reachable_fuzz_dst.blocks@; proof { if !pm.used(c_ as int) { lemma_not_grown(pm, u_, k, r_, c_ as int); } }",
                    end="                    proof { lemma_grown(pm, reachable_fuzz_dst.blocks@, u_, next_reachable_fuzz_dst.blocks@, k, r_, c_ - 1); }",
                    after="                proof { assert(pm.far(st_, i_ + 1) == pm.grown(r_, pm.classes.keys().len() as int)); }"),
               Loop(f"""                invariant reachable_srcs.blocks@.len() == k, forall|x: int| #[trigger] isset(reachable_srcs.blocks@, x) ==> x < n, forall|g: int, x: int| 0 <= g < f && #[trigger] isset(rows(reachable_fuzz_dst.blocks@, k, g), x) ==> isset(reachable_srcs.blocks@, x)""",
                    start="                proof { lemma_row2(reachable_fuzz_dst, b, n, f as int); assert(at2(reachable_fuzz_dst, f as int) == rows(reachable_fuzz_dst.blocks@, k, f as int)); }",
                    after="            proof { reveal(contains_far); assert forall|x: int| pm.comes(valid_search_depths@.len() - 1, x) implies #[trigger] isset(reachable_srcs.blocks@, x) by { let f = choose|f: int| 0 <= f < b && #[trigger] pm.far(st_, valid_search_depths@.len() - 1)(f, x); assert(isset(rows(reachable_fuzz_dst.blocks@, k, f), x)); } }"),
               ]), call='let reachable_srcs = self.reachable_srcs_(&valid_search_depths, states_len, fuzz_limit);')
    part("candidate_srcs", "let candidate_srcs = { $z };", "pub fn candidate_srcs_(&self, valid_search_depths: &Vec<bool>, states_len: usize, fuzz_limit: usize) -> BitSet1D", Fn(
        sig=f"""    requires {SIZES}, valid_search_depths@.len() >= 1
    ensures r.blocks@.len() == blocks_for(states_len as int), forall|x: int| #[trigger] isset(r.blocks@, x) ==> x < states_len, forall|x: int| 0 <= x < states_len && self.phrase_matcher.goes(valid_search_depths@.len() - 1, x) ==> #[trigger] isset(r.blocks@, x)""",
        rules=[CLASSES] + DEPTHS, start=START,
        at=[("table_fuzz_dst.slice_mut(0)", "before", "                let ghost t0_ = table_fuzz_dst; let ghost c0_ = candidate_srcs.blocks@; let ghost st_ = alone(src as int); proof { lemma_row2(t0_, b, n, 0); lemma_no_bits_in(t0_.blocks@, 0, k); assert(bounded(pm, st_)); }"),
            ("candidate_srcs.borrow_mut().insert(src);", "before", "                            proof { assert(isset(rows(table_fuzz_dst.blocks@, k, f as int), n - 1)); }"),
            ],
        loops=[Loop("""            invariant candidate_srcs.blocks@.len() == k, forall|x: int| #[trigger] isset(candidate_srcs.blocks@, x) ==> x < n, forall|x: int| 0 <= x < k_src && pm.goes(valid_search_depths@.len() - 1, x) ==> #[trigger] isset(candidate_srcs.blocks@, x), k_src <= end_src == n
            decreases n - k_src"""),
               Loop(f"""                    invariant_except_break i_ == d_
                    invariant dims2(table_fuzz_dst, b, n), {FAR.format(t='table_fuzz_dst', s='st_', j='i_')}, d_ <= valid_search_depths@.len(), 0 <= i_ <= valid_search_depths@.len(),
                        candidate_srcs.blocks@.len() == k, forall|x: int| #[trigger] isset(candidate_srcs.blocks@, x) ==> x < n, forall|x: int| isset(c0_, x) ==> #[trigger] isset(candidate_srcs.blocks@, x),
                        i_ > 0 && pm.goes(i_ - 1, src as int) ==> isset(candidate_srcs.blocks@, src as int)
                    ensures i_ == valid_search_depths@.len() || (i_ < valid_search_depths@.len() && {FAR.format(t='table_fuzz_dst', s='st_', j='i_ + 1')} && (pm.goes(i_, src as int) ==> isset(candidate_srcs.blocks@, src as int)))
                    decreases valid_search_depths@.len() - d_""",
                    before="                let ghost mut i_ = 0int; proof { let x_ = choose|x: Seq<u32>| x.len() == k && table_fuzz_dst.blocks@ == #[trigger] t0_.with_row(0usize, x) && forall|y: int| #[trigger] isset(x, y) == (isset(at2(t0_, 0), y) || y == src); lemma_one_row(pm, t0_, table_fuzz_dst, x_, st_); }",
                    start="                    let ghost r_ = pm.far(st_, i_); proof { lemma_far_shown(pm, table_fuzz_dst.blocks@, k, st_, i_); }",
                    end="                    proof { i_ = i_ + 1; }",
                    after="""                proof {
                    let end_ = valid_search_depths@.len() - 1;
                    if i_ <= end_ && pm.goes(end_, src as int) {
                        let f = choose|f: int| 0 <= f < b && #[trigger] pm.far(st_, end_)(f, n - 1);
                        lemma_saturated(pm, table_fuzz_dst.blocks@, k, st_, i_, end_, f, n - 1);
                        assert(pm.far(st_, i_)(f, n - 1));
                        assert(pm.goes(i_, src as int));
                    }
                }"""),
               Loop("""                        invariant_except_break forall|g: int| 0 <= g < f ==> !isset(#[trigger] rows(table_fuzz_dst.blocks@, k, g), n - 1), forall|x: int| isset(c0_, x) ==> #[trigger] isset(candidate_srcs.blocks@, x)
                        invariant candidate_srcs.blocks@.len() == k, forall|x: int| #[trigger] isset(candidate_srcs.blocks@, x) ==> x < n, forall|x: int| isset(c0_, x) ==> #[trigger] isset(candidate_srcs.blocks@, x)
                        ensures isset(candidate_srcs.blocks@, src as int) || forall|g: int| 0 <= g < b ==> !isset(#[trigger] rows(table_fuzz_dst.blocks@, k, g), n - 1)""",
                    start="                        proof { lemma_row2(table_fuzz_dst, b, n, f as int); assert(at2(table_fuzz_dst, f as int) == rows(table_fuzz_dst.blocks@, k, f as int)); }",
                    after="""                    proof {
                        reveal(shows);
                        if pm.goes(i_, src as int) {
                            let f = choose|f: int| 0 <= f < b && #[trigger] pm.far(st_, i_)(f, n - 1);
                            assert(isset(rows(table_fuzz_dst.blocks@, k, f), n - 1) == pm.far(st_, i_)(f, n - 1));
                        }
                    }"""),
               Loop(f"""                        invariant c_ <= pm.classes.keys().len(), dims2(next_table_fuzz_dst, b, n), shows(next_table_fuzz_dst.blocks@, k, b, pm.grown(r_, c_ as int))
                        decreases pm.classes.keys().len() - c_""",
                    before="                    proof { lemma_none_grown(pm, next_table_fuzz_dst.blocks@, k, r_); }",
                    start="                        let ghost u_ = next_table_fuzz_dst.blocks@; proof { if !pm.used(c_ as int) { lemma_not_grown(pm, u_, k, r_, c_ as int); } }",
                    end="                        proof { lemma_grown(pm, table_fuzz_dst.blocks@, u_, next_table_fuzz_dst.blocks@, k, r_, c_ - 1); }",
                    after="                    proof { assert(pm.far(st_, i_ + 1) == pm.grown(r_, pm.classes.keys().len() as int)); }"),
               ]), call='let candidate_srcs = self.candidate_srcs_(&valid_search_depths, states_len, fuzz_limit);')
    part("redundant_states", "let redundant_states = { $z };", "pub fn redundant_states_(&self, alive_states_ref: &BitSetRef1D, states_len: usize, fuzz_limit: usize) -> Vec<Option<usize>>", Fn(
        sig=f"""    requires {SIZES}, alive_states_ref.blocks@.len() == blocks_for(states_len as int), forall|x: int| #[trigger] isset(alive_states_ref.blocks@, x) ==> x < states_len, isset(alive_states_ref.blocks@, states_len - 1)
    ensures self.phrase_matcher.folded(alive_states_ref.blocks@, r@)""",
        rules=[CLASSES, ("let mut redundant_states: Vec<Option<usize>> = (0..states_len).map(|$is| $e).collect();", "let mut redundant_states: Vec<Option<usize>> = Vec::new(); let mut s_: usize = 0; while s_ < states_len { let $is = s_; s_ += 1; redundant_states.push($e); }", EACH),
               ("assert_eq!($e, None);", "rt_assert($e.is_none());", "the run-time assertion becomes a proof obligation (it can't fail)")],
        start=START + " let ghost a = alive_states_ref.blocks@;",
        at=[("redundant_states[j] = Some(i);", "before", "                    let ghost red_ = redundant_states@; proof { assert forall|h: int, f: int, d: int| #![trigger pm.same_out(i as int, j as int, h, f, d)] #![trigger pm.same_in(i as int, j as int, h, f, d)] 0 <= h < pm.classes.keys().len() && pm.used(h) && 0 <= f < b && isset(a, d) implies pm.same_out(i as int, j as int, h, f, d) && pm.same_in(i as int, j as int, h, f, d) by { assert(pm.alike(a, i as int, j as int, h, f)); reveal(PhraseMatcher::alike); } reveal(PhraseMatcher::twins); assert(pm.twins(a, i as int, j as int)); }"),
            ("redundant_states[j] = Some(i);", "after", "                    proof { assert forall|s: int| 0 <= s < n implies #[trigger] pm.folds(a, redundant_states@, s) by { assert(pm.folds(a, red_, s)); } }")],
        loops=[Loop("""            invariant s_ <= n, redundant_states@.len() == s_, forall|s: int| 0 <= s < s_ ==> #[trigger] redundant_states@[s] == (if isset(a, s) { None } else { Some(s as usize) })
            decreases n - s_""", after="            proof { assert forall|s: int| 0 <= s < n implies #[trigger] pm.folds(a, redundant_states@, s) by { assert(redundant_states@[s] == (if isset(a, s) { None } else { Some(s as usize) })); } }"),
               Loop("""                invariant k_i <= end_i == n, redundant_states@.len() == n, redundant_states@[n - 1] is None, forall|s: int| 0 <= s < n ==> #[trigger] pm.folds(a, redundant_states@, s), forall|s: int| 0 <= s < n && (#[trigger] redundant_states@[s]) is Some ==> redundant_states@[s]->0 == s || redundant_states@[s]->0 < k_i
                decreases n - k_i""", after="            proof { reveal(PhraseMatcher::folded); }"),
               Loop("""                    invariant i + 1 <= k_j, k_j <= end_j || i == n - 1, end_j == n - 1, redundant_states@.len() == n, redundant_states@[n - 1] is None, redundant_states@[i as int] is None, forall|s: int| 0 <= s < n ==> #[trigger] pm.folds(a, redundant_states@, s), forall|s: int| 0 <= s < n && (#[trigger] redundant_states@[s]) is Some ==> redundant_states@[s]->0 == s || redundant_states@[s]->0 <= i
                    decreases n - k_j""",
                    start="                    proof { assert(pm.folds(a, redundant_states@, i as int)); assert(pm.folds(a, redundant_states@, k_j as int)); }"),
               Loop("""                        invariant k_f <= end_f == b, forall|h: int, g: int| 0 <= h < pm.classes.keys().len() && 0 <= g < k_f && pm.used(h) ==> #[trigger] pm.alike(a, i as int, j as int, h, g)
                        decreases b - k_f"""),
               Loop("""                            invariant c_ <= pm.classes.keys().len(), forall|h: int| 0 <= h < c_ && pm.used(h) ==> #[trigger] pm.alike(a, i as int, j as int, h, f as int)
                            decreases pm.classes.keys().len() - c_"""),
               Loop("""                                invariant it_.wf(), forall|d: int| #[trigger] it_.left(d) ==> isset(a, d), forall|d: int| #[trigger] isset(a, d) && !it_.left(d) ==> pm.same_out(i as int, j as int, c_ - 1, f as int, d)
                                ensures forall|d: int| !#[trigger] it_.left(d)
                                decreases it_.measure()""",
                    start="                                proof { lemma_row(*table_src_fuzz_dst, n, b, n, i as int, f as int); lemma_row(*table_src_fuzz_dst, n, b, n, j as int, f as int); assert(pm.leap(c_ - 1, i as int, f as int, dst as int) == isset(at(*table_src_fuzz_dst, i as int, f as int), dst as int)); }"),
               Loop("""                                invariant it_.wf(), forall|d: int| #[trigger] it_.left(d) ==> isset(a, d), forall|d: int| #[trigger] isset(a, d) && !it_.left(d) ==> pm.same_in(i as int, j as int, c_ - 1, f as int, d)
                                ensures forall|d: int| !#[trigger] it_.left(d)
                                decreases it_.measure()""",
                    start="                                proof { lemma_row(*table_src_fuzz_dst, n, b, n, src as int, f as int); }",
                    after="                            proof { reveal(PhraseMatcher::alike); assert(pm.alike(a, i as int, j as int, c_ - 1, f as int)); }"),
               ]), call='let redundant_states = self.redundant_states_(&alive_states_ref, states_len, fuzz_limit);')
    ZIP = ("for (&$ia, &$ib) in self.alive_wordlist.iter().zip(self.phrase_matcher.word_classes.iter()) { $z }", "let mut w_: usize = 0; while w_ < self.alive_wordlist.len() && w_ < self.phrase_matcher.word_classes.len() { let $ia = self.alive_wordlist[w_]; let $ib = self.phrase_matcher.word_classes[w_]; w_ += 1; $z }", EACH)
    VALUE = ("$rx.get_index_mut($i).unwrap().1", "$rx.value_mut($i)", MAP)
    VEC = ("vec![]", "Vec::new()", "a macro")
    part("words", "self.phrase_matcher.classes.values_mut().for_each(|$iw| $e); let mut new_word_classes = vec![]; $z self.phrase_matcher.word_classes = $c; self.alive_wordlist = new_alive_wordlist;", "pub fn narrow_(&mut self, new_input_wordlist: &[&'word Word])", Fn(
        sig="""    requires old(self).phrase_matcher.ok(), old(self).paired(), embedded(old(self).alive_wordlist@, new_input_wordlist@)
    ensures exists|g: Seq<int>, m: Seq<int>| #[trigger] old(self).narrowed(*final(self), new_input_wordlist@, g, m), final(self).phrase_matcher.ok(), final(self).phrase_matcher.settled(final(self).alive_wordlist@.len() as int),
        final(self).table_char_src_fuzz_dst == old(self).table_char_src_fuzz_dst, final(self).table_chars == old(self).table_chars, final(self).word_index == old(self).word_index""",
        rules=[("self.phrase_matcher.classes.values_mut().for_each(|$iw| $e);", "let mut k_: usize = 0; while k_ < self.phrase_matcher.classes.len() { let $iw = self.phrase_matcher.classes.value_mut(k_); k_ += 1; $e; }", EACH), ZIP, VALUE, VEC, ("*$ia == *new_input_wordlist[$ib]", "equal_words($ia, new_input_wordlist[$ib])", ROWS)],
        start="        let ghost s0 = *self; let ghost al = self.alive_wordlist@; let ghost wc = self.phrase_matcher.word_classes@; let ghost pm0 = self.phrase_matcher; let ghost ys = new_input_wordlist@; let ghost keys = pm0.classes.keys(); proof { reveal(PhraseMatcher::ok); reveal(embedded); } let ghost h = choose|h: Seq<int>| chosen(al, ys, h);",
        loops=[Loop("""            invariant k_ <= keys.len(), self.phrase_matcher.classes.ok(), self.phrase_matcher.classes.keys() == keys, self.phrase_matcher.like(pm0), self.phrase_matcher.word_classes@ == wc, self.alive_wordlist@ == al,
                forall|k: int| 0 <= k < k_ ==> (#[trigger] self.phrase_matcher.classes.values()[k]).words_count == 0 && self.phrase_matcher.classes.values()[k].min_tranche == 0,
                self.table_char_src_fuzz_dst == s0.table_char_src_fuzz_dst, self.table_chars == s0.table_chars, self.word_index == s0.word_index
            decreases keys.len() - k_"""),
               Loop("""            invariant w_ <= al.len() == wc.len(), i <= ys.len(), self.phrase_matcher.classes.ok(), self.phrase_matcher.classes.keys() == keys, self.phrase_matcher.like(pm0), self.phrase_matcher.word_classes@ == wc, self.alive_wordlist@ == al,
                self.table_char_src_fuzz_dst == s0.table_char_src_fuzz_dst, self.table_chars == s0.table_chars, self.word_index == s0.word_index,
                g.len() == i, into(g, w_ as int), forall|t: int| 0 <= t < i ==> same_word(al[#[trigger] g[t]], ys[t]), forall|t: int| 0 <= t < ys.len() && #[trigger] h[t] < w_ ==> t < i,
                into(m, i as int), m.len() == new_word_classes@.len() == new_alive_wordlist@.len(), m.len() <= i,
                picked(al, wc, new_alive_wordlist@, new_word_classes@, g, m),
                forall|t: int| 0 <= t < i && wc[#[trigger] g[t]] != 0 ==> m.contains(t),
                forall|k: int| 0 <= k < keys.len() ==> (#[trigger] self.phrase_matcher.classes.values()[k]).words_count <= m.len() && self.phrase_matcher.classes.values()[k].min_tranche == 0,
                forall|j: int| 0 <= j < m.len() ==> 0 <= #[trigger] new_word_classes@[j] < keys.len() && self.phrase_matcher.used(new_word_classes@[j] as int),
            decreases al.len() - w_""", before="            let ghost mut g: Seq<int> = Seq::empty(); let ghost mut m: Seq<int> = Seq::empty(); proof { reveal(picked); }",
                    start="                let ghost (i0, g0, m0, nw0, na0, cl0) = (i as int, g, m, new_word_classes@, new_alive_wordlist@, self.phrase_matcher.classes);",
                    after="            proof { if i < ys.len() { assert(0 <= h[i as int] < al.len()); } }", end="""                proof {
                    let w = w_ - 1;
                    if i == i0 + 1 {
                        g = g0.push(w);
                        assert(g[i0] == w);
                        lemma_picked(al, wc, na0, nw0, g0, m0, w);
                        assert(new_alive_wordlist@ == (if wc[w] != 0 { na0.push(al[w]) } else { na0 }));
                        assert forall|j: int| 0 <= j < g.len() implies 0 <= #[trigger] g[j] < w_ by { if j < i0 { assert(0 <= g0[j] < w); } }
                        if wc[w] != 0 {
                            m = m0.push(i0);
                            assert forall|j: int| 0 <= j < m.len() implies 0 <= #[trigger] m[j] < i by { if j < m0.len() { assert(0 <= m0[j] < i0); } }
                            assert(m[m0.len() as int] == i0);
                            assert forall|j: int| 0 <= j < m.len() implies 0 <= #[trigger] new_word_classes@[j] < keys.len() && self.phrase_matcher.used(new_word_classes@[j] as int) by { if j < m0.len() { assert(0 <= nw0[j] < keys.len()); } }
                            assert forall|t: int| 0 <= t < i && wc[#[trigger] g[t]] != 0 implies m.contains(t) by { if t < i0 { assert(wc[g0[t]] != 0); assert(m0.contains(t)); let j = choose|j: int| 0 <= j < m0.len() && m0[j] == t; assert(m[j] == t); } else { assert(m[m0.len() as int] == t); } }
                            assert(new_word_classes@ == nw0.push(wc[w]));
                            assert(new_alive_wordlist@ == na0.push(al[w]));
                        } else {
                            assert forall|j: int| 0 <= j < m.len() implies 0 <= #[trigger] m[j] < i by { assert(0 <= m0[j] < i0); }
                        }
                    } else {
                        assert forall|j: int| 0 <= j < g.len() implies 0 <= #[trigger] g[j] < w_ by { assert(0 <= g0[j] < w); }
                        assert(g == g0 && m == m0 && new_alive_wordlist@ == na0 && new_word_classes@ == nw0);
                    }
                    assert forall|t: int| 0 <= t < ys.len() && #[trigger] h[t] < w_ implies t < i by {
                        if h[t] == w && t >= i0 {
                            if t > i0 { assert(h[i0] < h[t]); }
                            assert(same_word(al[h[t]], ys[t]));
                        }
                    }
                }"""),
               ],
        at=[("self.alive_wordlist = new_alive_wordlist;", "after", "            proof { assert(i == ys.len()); assert forall|t: int| 0 <= t < ys.len() implies same_word(al[g[t]], #[trigger] ys[t]) by { assert(same_word(al[g[t]], ys[t])); } assert(into(g, al.len() as int)); assert(chosen(al, ys, g)); assert(s0.narrowed(*self, ys, g, m)) by { reveal(WordMatcher::narrowed); } reveal(PhraseMatcher::settled); }"),]),
        body="self.phrase_matcher.classes.values_mut().for_each(|$iw| $e); let mut new_word_classes = vec![]; $z self.phrase_matcher.word_classes = $c; self.alive_wordlist = new_alive_wordlist;", call='self.narrow_(new_input_wordlist);')
    COUNT = lambda n: Loop(f"""            invariant k_ <= end_ == {n} <= redundant_states@.len(), n_ == count(redundant_states@, k_ as int) <= k_
            decreases end_ - k_""", before="proof { lemma_count(redundant_states@, 0, 0); }")
    COUNTS = [("redundant_states.iter().filter(|$iy| $c).count()", "{ let mut n_: usize = 0; let end_ = redundant_states.len(); let mut k_: usize = 0; while k_ < end_ { let $iy = &redundant_states[k_]; k_ += 1; if $c { n_ += 1; } } n_ }", EACH),
              ("redundant_states[..$a].iter().filter(|$iy| $c).count()", "{ let mut n_: usize = 0; let end_ = $a; let mut k_: usize = 0; while k_ < end_ { let $iy = &redundant_states[k_]; k_ += 1; if $c { n_ += 1; } } n_ }", EACH)]
    part("new_states_len", "let new_states_len = $e;", "pub fn new_states_len_(redundant_states: &Vec<Option<usize>>) -> usize", Fn(
        sig="    ensures r == count(redundant_states@, redundant_states@.len() as int)", rules=COUNTS, loops=[COUNT("redundant_states@.len()")]), body="$e", call='let new_states_len = Self::new_states_len_(&redundant_states);')
    part("new_state_index", "let new_state_index: Vec<_> = $e;", "pub fn new_state_index_(redundant_states: &Vec<Option<usize>>) -> Vec<Option<usize>>", Fn(
        sig="    ensures indexed(redundant_states@, r@)",
        rules=COUNTS + [("redundant_states.iter().enumerate().map(|($ia, $ib)| $e).collect()", "let mut out_: Vec<Option<usize>> = Vec::new(); let mut s_: usize = 0; while s_ < redundant_states.len() { let $ia = s_; let $ib = &redundant_states[s_]; s_ += 1; out_.push($e); } out_", EACH)],
        loops=[Loop("""            invariant s_ <= redundant_states@.len(), out_@.len() == s_, forall|s: int| 0 <= s < s_ ==> #[trigger] out_@[s] == (if redundant_states@[s] is None { Some(count(redundant_states@, s) as usize) } else { None })
            decreases redundant_states@.len() - s_""", after="proof { reveal(indexed); }"), COUNT("s_ - 1")]), body="$e", call='let new_state_index: Vec<_> = Self::new_state_index_(&redundant_states);')
    part("new_start_states", "let new_start_states = { $z };", "pub fn new_start_states_(&self, redundant_states: Ghost<Seq<Option<usize>>>, new_state_index: &Vec<Option<usize>>, new_states_len: usize) -> BitSet1D", Fn(
        sig="""    requires self.phrase_matcher.ok(), self.phrase_matcher.tidy(), indexed(redundant_states@, new_state_index@), redundant_states@.len() == self.phrase_matcher.states_len, new_states_len == count(redundant_states@, redundant_states@.len() as int)
    ensures restarted(redundant_states@, self.phrase_matcher.start_states.blocks@, r.blocks@), r.blocks@.len() == blocks_for(new_states_len as int), forall|x: int| #[trigger] isset(r.blocks@, x) ==> x < new_states_len""",
        start="        let ghost red = redundant_states@; let ghost n = self.phrase_matcher.states_len as int; let ghost st = self.phrase_matcher.start_states.blocks@; proof { usize_64(); lemma_sized(self.phrase_matcher); lemma_count(red, 0, n); reveal(indexed); reveal(PhraseMatcher::tidy); }",
        loops=[Loop("""            invariant it_.wf(), forall|d: int| #[trigger] it_.left(d) ==> isset(st, d), states.blocks@.len() == blocks_for(new_states_len as int),
                forall|z: int| #[trigger] isset(states.blocks@, z) == (exists|d: int| stays(red, d, z) && #[trigger] isset(st, d) && !it_.left(d))
            ensures forall|d: int| !#[trigger] it_.left(d)
            decreases it_.measure()""",
                start="            let ghost s_ = states.blocks@; let ghost i_ = i as int; proof { assert(isset(st, i_)); assert(new_state_index@[i_] == (if red[i_] is None { Some(count(red, i_) as usize) } else { None })); lemma_count(red, i_, n); }",
                end="""            proof {
                assert forall|z: int| #[trigger] isset(states.blocks@, z) == (exists|d: int| stays(red, d, z) && #[trigger] isset(st, d) && !it_.left(d)) by {
                    if stays(red, i_, z) { assert(isset(st, i_) && !it_.left(i_)); }
                    assert(isset(states.blocks@, z) == (isset(s_, z) || stays(red, i_, z)));
                    if exists|d: int| stays(red, d, z) && #[trigger] isset(st, d) && !it_.left(d) {
                        let d = choose|d: int| stays(red, d, z) && #[trigger] isset(st, d) && !it_.left(d);
                        if d != i_ { assert(isset(s_, z)); }
                    }
                }
            }""",
                after="            proof { reveal(restarted); assert forall|x: int| #[trigger] isset(states.blocks@, x) implies x < new_states_len by { let d = choose|d: int| stays(red, d, x) && #[trigger] isset(st, d) && !it_.left(d); lemma_count(red, d, n); } assert forall|z: int| #[trigger] isset(states.blocks@, z) == (exists|d: int| stays(red, d, z) && #[trigger] isset(st, d)) by { if exists|d: int| stays(red, d, z) && #[trigger] isset(st, d) { let d = choose|d: int| stays(red, d, z) && #[trigger] isset(st, d); assert(!it_.left(d)); } } }")]), call='let new_start_states = self.new_start_states_(Ghost(redundant_states@), &new_state_index, new_states_len);')
    NONE = ("$rx.unwrap_or_else(|| $e)", "(match $rx { Some(v_) => v_, None => $e })", EACH)
    OR_INSERT = ("entry.or_insert_with(Default::default)", "entry.or_default_()", MAP)
    part("new_classes", "let empty_table_src_fuzz_dst = $z assert_eq!(self.phrase_matcher.word_classes.len(), $k);",
         "pub fn new_classes_(&self, redundant_states: &Vec<Option<usize>>, new_state_index: &Vec<Option<usize>>, new_states_len: usize, fuzz_limit: usize) -> (Vec<usize>, ClassMap)", Fn(
        sig="""    requires self.phrase_matcher.ok(), self.phrase_matcher.tidy(), resolved(redundant_states@), indexed(redundant_states@, new_state_index@), redundant_states@.len() == self.phrase_matcher.states_len, new_states_len == count(redundant_states@, redundant_states@.len() as int), fuzz_limit == self.phrase_matcher.fuzz_limit, new_states_len >= 1
    ensures reclassed(redundant_states@, fuzz_limit as int, self.phrase_matcher.classes, self.phrase_matcher.classes.keys().len() as int, r.0@, r.1)""",
        rules=[("for ($ic, ($ia, $ib)) in self.phrase_matcher.classes.iter().enumerate() { $z }", "let mut c_: usize = 0; while c_ < self.phrase_matcher.classes.len() { let $ic = c_; let ($ia, $ib) = self.phrase_matcher.classes.get_index(c_).unwrap(); c_ += 1; $z }", EACH),
               ("for ($ia, &$ib) in new_state_index.iter().enumerate() { $z }", "let mut s_: usize = 0; while s_ < new_state_index.len() { let $ia = s_; let $ib = new_state_index[s_]; s_ += 1; $z }", EACH),
               ("redundant_states[$is] == Some($it)", "same_index(redundant_states[$is], Some($it))", "comparison is done by a function with a contract"),
               NONE, OR_INSERT, ("vec![0; $e]", "indexes($e)", FLAGS), ("Default::default()", "WordClass::default()", "the type is spelled out"),
               ("let mut new_classes: IndexMap<_, WordClass> = IndexMap::new();", "let mut new_classes: ClassMap = ClassMap::new();", MAP)],
        start="        let ghost red = redundant_states@; let ghost pm = self.phrase_matcher; let ghost n = pm.states_len as int; let ghost b = fuzz_limit as int; let ghost nn = new_states_len as int; let ghost cls = pm.classes; proof { usize_64(); lemma_sized(pm); lemma_count(red, 0, n); reveal(indexed); reveal(resolved); reveal(PhraseMatcher::tidy); reveal(PhraseMatcher::ok); assert(nn * b <= 16384 * 16384 && 0 <= nn * b) by (nonlinear_arith) requires 0 <= nn <= 16384, 0 <= b <= 16384; assert((nn * b) * blocks_for(nn) <= 16384 * 16384 * 513 && 0 <= (nn * b) * blocks_for(nn)) by (nonlinear_arith) requires 0 <= nn * b <= 16384 * 16384, 0 <= blocks_for(nn) <= 513; assert((new_states_len, fuzz_limit).total() == nn * b); }",
        at=[("let mut class_map", "before", "        proof { assert(dims(empty_table_src_fuzz_dst, nn, b, nn)); }"),
            ("let entry = new_classes.entry(new_table_src_fuzz_dst);", "before", "            let ghost u_ = new_table_src_fuzz_dst; let ghost (nc0_, map0_) = (new_classes, class_map@); proof { lemma_remapped(red, b, *table_src_fuzz_dst, u_); reveal(reclassed); }"),
            ("let old_slice", "before", "                    let ghost u0_ = new_table_src_fuzz_dst; let ghost old_ = at(*table_src_fuzz_dst, src as int, f as int); let ghost row_ = at(u0_, new_src as int, f as int); proof { lemma_row(*table_src_fuzz_dst, n, b, n, src as int, f as int); lemma_row(u0_, nn, b, nn, new_src as int, f as int); }"),
            ],
        loops=[Loop("""            invariant c_ <= cls.keys().len(), reclassed(red, b, cls, c_ as int, class_map@, new_classes)
            decreases cls.keys().len() - c_""",
                before="        proof { let e_ = new_classes.keys()[0]; assert(new_classes.keys() == Seq::<BitSet3D>::empty().push(e_)); assert(new_classes.values() == Seq::<WordClass>::empty().push(WordClass { words_count: 0, min_tranche: 0 })); lemma_reclassed_none(red, b, cls, class_map@, new_classes, e_); }",
                start="            proof { reveal(reclassed); if cls.values()[c_ as int].words_count == 0 { lemma_reclassed_skip(red, b, cls, c_ as int, class_map@, new_classes); } }",
                end="            proof { lemma_reclassed_next(red, b, cls, c_ - 1, map0_, nc0_, u_, class_map@[c_ - 1], new_classes); }"),
               Loop("""                invariant s_ <= n, dims(new_table_src_fuzz_dst, nn, b, nn), remapping(red, b, *table_src_fuzz_dst, new_table_src_fuzz_dst, s_ as int, 0)
                decreases n - s_""",
                before="            proof { lemma_remapping_none(red, b, *table_src_fuzz_dst, new_table_src_fuzz_dst); }",
                start="                proof { if red[s_ as int] == Some(s_) { lemma_remapping_next(red, b, *table_src_fuzz_dst, new_table_src_fuzz_dst, s_ as int); } else { lemma_count(red, rep(red, s_ as int), n); } }",
                end="                proof { lemma_remapping_next(red, b, *table_src_fuzz_dst, new_table_src_fuzz_dst, s_ - 1); }"),
               Loop("""                    invariant dims(new_table_src_fuzz_dst, nn, b, nn), remapping(red, b, *table_src_fuzz_dst, new_table_src_fuzz_dst, src as int, f as int), new_src < nn, becomes(red, src as int, new_src as int)""",
                end="                    proof { lemma_remapping_row(red, b, *table_src_fuzz_dst, u0_, new_table_src_fuzz_dst, src as int, f as int, new_src as int, fin_); }"),
               Loop("""                        invariant final(new_slice.blocks)@ == fin_, new_slice.size == (), new_slice.blocks@.len() == blocks_for(nn), it_.wf(), forall|d: int| #[trigger] it_.left(d) ==> isset(old_, d),
                            forall|z: int| #[trigger] isset(new_slice.blocks@, z) == (isset(row_, z) || exists|d: int| stays(red, d, z) && #[trigger] isset(old_, d) && !it_.left(d))
                        ensures forall|d: int| !#[trigger] it_.left(d)
                        decreases it_.measure()""",
                before="                    let ghost fin_ = final(new_slice.blocks)@;",
                start="                        let ghost q_ = new_slice.blocks@; let ghost i_ = dst as int; proof { assert(isset(old_, i_)); lemma_count(red, i_, n); }",
                end="""                        proof {
                            assert forall|z: int| #[trigger] isset(new_slice.blocks@, z) == (isset(row_, z) || exists|d: int| stays(red, d, z) && #[trigger] isset(old_, d) && !it_.left(d)) by {
                                if stays(red, i_, z) { assert(isset(old_, i_) && !it_.left(i_)); }
                                assert(isset(new_slice.blocks@, z) == (isset(q_, z) || stays(red, i_, z)));
                                if exists|d: int| stays(red, d, z) && #[trigger] isset(old_, d) && !it_.left(d) {
                                    let d = choose|d: int| stays(red, d, z) && #[trigger] isset(old_, d) && !it_.left(d);
                                    if d != i_ { assert(isset(q_, z)); }
                                }
                            }
                        }""",
                after="                    proof { assert forall|z: int| #[trigger] isset(new_slice.blocks@, z) == (isset(row_, z) || exists|d: int| stays(red, d, z) && #[trigger] isset(old_, d)) by { if exists|d: int| stays(red, d, z) && #[trigger] isset(old_, d) { let d = choose|d: int| stays(red, d, z) && #[trigger] isset(old_, d); assert(!it_.left(d)); } } }"),
               ]), body="let empty_table_src_fuzz_dst = $z (class_map, new_classes)", call='let (class_map, new_classes) = self.new_classes_(&redundant_states, &new_state_index, new_states_len, fuzz_limit); assert_eq!(self.phrase_matcher.word_classes.len(), $k);')
    part("new_words", "let mut new_alive_wordlist = vec![]; let mut new_word_classes = vec![]; $z self.phrase_matcher.start_states = new_start_states;",
         "pub fn renumber_(&mut self, alive_states: Ghost<Seq<u32>>, redundant_states: Ghost<Seq<Option<usize>>>, class_map: &Vec<usize>, mut new_classes: ClassMap, new_states_len: usize, new_start_states: BitSet1D)", Fn(
        sig="""    requires old(self).paired(), old(self).phrase_matcher.ok(), old(self).phrase_matcher.tidy(), old(self).phrase_matcher.settled(old(self).alive_wordlist@.len() as int), old(self).phrase_matcher.folded(alive_states@, redundant_states@),
        reclassed(redundant_states@, old(self).phrase_matcher.fuzz_limit as int, old(self).phrase_matcher.classes, old(self).phrase_matcher.classes.keys().len() as int, class_map@, new_classes), new_states_len == count(redundant_states@, redundant_states@.len() as int), new_states_len >= 1,
        restarted(redundant_states@, old(self).phrase_matcher.start_states.blocks@, new_start_states.blocks@), new_start_states.blocks@.len() == blocks_for(new_states_len as int), forall|x: int| #[trigger] isset(new_start_states.blocks@, x) ==> x < new_states_len
    ensures exists|idx: Seq<int>| #[trigger] shrunk(old(self).phrase_matcher, old(self).alive_wordlist@.len() as int, final(self).phrase_matcher, alive_states@, redundant_states@, idx) && old(self).left(*final(self), idx),
        final(self).phrase_matcher.ok(), final(self).phrase_matcher.tidy(), final(self).phrase_matcher.dead_first(), final(self).phrase_matcher.settled(final(self).alive_wordlist@.len() as int), final(self).paired(), final(self).named(),
        final(self).phrase_matcher.expression == old(self).phrase_matcher.expression, final(self).table_char_src_fuzz_dst == old(self).table_char_src_fuzz_dst, final(self).table_chars == old(self).table_chars, final(self).word_index == old(self).word_index""",
        rules=[ZIP, VALUE, VEC],
        start="        let ghost s0 = *self; let ghost al = self.alive_wordlist@; let ghost wc = self.phrase_matcher.word_classes@; let ghost pm0 = self.phrase_matcher; let ghost map = class_map@; let ghost new0 = new_classes; let ghost b = pm0.fuzz_limit as int; let ghost red = redundant_states@; let ghost nn = new_states_len as int; proof { usize_64(); reveal(PhraseMatcher::ok); reveal(PhraseMatcher::tidy); reveal(PhraseMatcher::settled); reveal(PhraseMatcher::folded); reveal(reclassed); lemma_count(red, 0, red.len() as int); }",
        at=[("self.phrase_matcher.start_states = new_start_states;", "after", """        proof {
            let next = self.phrase_matcher;
            assert(next.dead_first()) by { assert(proper(new0.keys()[0], nn, b)); lemma_dead(new0.keys()[0], nn, b); }
            assert forall|k: int| 0 <= k < next.classes.keys().len() implies dims(#[trigger] next.classes.keys()[k], nn, b, nn) by { assert(proper(new0.keys()[k], nn, b)); }
            assert forall|k: int, d: int, f: int, x: int| 0 <= k < next.classes.keys().len() && 0 <= d < nn && 0 <= f < b && #[trigger] isset(at(next.classes.keys()[k], d, f), x) implies x < nn by { assert(proper(new0.keys()[k], nn, b)); }
            lemma_shrunk(pm0, al, next, alive_states@, red, map, new0, self.alive_wordlist@, idx);
            assert(s0.left(*self, idx)) by { reveal(renamed); reveal(WordMatcher::left); } assert(self.named()) by { reveal(renamed); reveal(WordMatcher::named); }
        }""")],
        loops=[Loop("""            invariant w_ <= al.len() == wc.len(), *self == s0, new_classes.ok(), new_classes.keys() == new0.keys(), renamed(al, wc, map, w_ as int, new_alive_wordlist@, new_word_classes@, idx), new_word_classes@.len() == idx.len() <= w_,
                forall|k: int| 0 <= k < new0.keys().len() ==> (#[trigger] new_classes.values()[k]).words_count <= idx.len() && new_classes.values()[k].min_tranche == 0,
                forall|j: int| 0 <= j < idx.len() ==> 0 <= #[trigger] new_word_classes@[j] < new0.keys().len() && new_classes.values()[new_word_classes@[j] as int].words_count > 0
            decreases al.len() - w_""",
            before="        let ghost mut idx: Seq<int> = Seq::empty(); proof { reveal(renamed); }",
            start="            let ghost (idx0, al0, wc0, cl0) = (idx, new_alive_wordlist@, new_word_classes@, new_classes); proof { let k_ = wc[w_ as int] as int; assert(pm0.used(k_)); assert(map[k_] < new0.keys().len()); }",
            end="""            proof {
                let w = w_ - 1;
                lemma_renamed(al, wc, map, w, al0, wc0, idx0);
                if map[wc[w] as int] != 0 {
                    idx = idx0.push(w);
                    assert(new_alive_wordlist@ == al0.push(al[w]));
                    assert(new_word_classes@ == wc0.push(map[wc[w] as int]));
                    assert forall|j: int| 0 <= j < idx.len() implies 0 <= #[trigger] new_word_classes@[j] < new0.keys().len() && new_classes.values()[new_word_classes@[j] as int].words_count > 0 by { if j < idx0.len() { assert(0 <= wc0[j] < new0.keys().len()); } }
                }
            }"""),
            ]), body="let mut new_alive_wordlist = vec![]; let mut new_word_classes = vec![]; $z self.phrase_matcher.start_states = new_start_states;", call='self.renumber_(Ghost(alive_states_ref.blocks@), Ghost(redundant_states@), &class_map, new_classes, new_states_len, new_start_states);')
    m.fn("optimize_for_wordlist", Fn(
        sig="""    requires search_queue@.len() > 0, forall|i: int| 0 <= i < search_queue@.len() ==> (#[trigger] search_queue@[i]).depth < usize::MAX, old(self).phrase_matcher.ok(), old(self).phrase_matcher.tidy(), embedded(old(self).alive_wordlist@, new_input_wordlist@),
        forall|d: int| deepest(search_queue@, d) ==> #[trigger] old(self).tight(d)
    ensures forall|d: int| deepest(search_queue@, d) ==> #[trigger] final(self).tight(d) && exists|m: Seq<int>| #[trigger] final(self).enough(new_input_wordlist@, m, d), final(self).phrase_matcher.ok(), final(self).phrase_matcher.tidy(), final(self).named(),
        final(self).phrase_matcher.expression == old(self).phrase_matcher.expression, r ==> final(self).phrase_matcher.states_len + final(self).alive_wordlist@.len() < old(self).phrase_matcher.states_len + old(self).alive_wordlist@.len(), !r ==> final(self).phrase_matcher.states_len == old(self).phrase_matcher.states_len,
        final(self).table_char_src_fuzz_dst == old(self).table_char_src_fuzz_dst, final(self).table_chars == old(self).table_chars, final(self).word_index == old(self).word_index""",
        attrs=ATTRS, rules=[c for c in calls if c[1]] + [VEC],
        start="        let ghost s0 = *self; let ghost ys = new_input_wordlist@; let ghost d = deepest_of(search_queue@); let ghost mut s1 = *self; let ghost mut m: Seq<int> = Seq::empty(); proof { lemma_deepest(search_queue@); assert(self.tight(d)); assert(self.alive_wordlist@.len() > 0 ==> self.phrase_matcher.ok() && self.paired()) by { reveal(WordMatcher::tight); } lemma_embedded_len(self.alive_wordlist@, ys); }",
        at=[("return false;", "before", "                proof { lemma_empty(*self, ys, d); reveal(WordMatcher::named); }"),
            ("self.narrow_(new_input_wordlist);", "after", "            proof { s1 = *self; let (g_, m_) = choose|g_: Seq<int>, m_: Seq<int>| #[trigger] s0.narrowed(s1, ys, g_, m_); m = m_; let g = g_; lemma_tight_words(s0, s1, ys, g, m, d); lemma_narrowed_len(s0, s1, ys, g, m); lemma_sized(self.phrase_matcher); assert(s1.named()) by { reveal(WordMatcher::named); reveal(WordMatcher::narrowed); reveal(picked); } assert(s1.phrase_matcher.states_len == s0.phrase_matcher.states_len && s1.phrase_matcher.expression == s0.phrase_matcher.expression) by { reveal(WordMatcher::narrowed); } }"),
            ("let alive_states_ref = alive_states.borrow();", "after", "        let ghost a = alive_states_ref.blocks@; let ghost pm1 = self.phrase_matcher; proof { assert(valid_search_depths@.len() - 1 == d) by { assert(deepest(search_queue@, valid_search_depths@.len() - 1)); } assert(living(pm1, d, a)); }"),
            ("let new_states_len = Self::new_states_len_(&redundant_states);", "before", "        proof { lemma_folded(pm1, a, redundant_states@); }"),
            ("self.alive_wordlist = Vec::new();", "after", "            proof { lemma_tight_none(s1, *self, ys, m, a, d); reveal(WordMatcher::named); }"),
            ("self.renumber_(Ghost(alive_states_ref.blocks@), Ghost(redundant_states@), &class_map, new_classes, new_states_len, new_start_states);", "after", "        let ghost idx = choose|idx: Seq<int>| #[trigger] shrunk(pm1, s1.alive_wordlist@.len() as int, self.phrase_matcher, a, redundant_states@, idx) && s1.left(*self, idx); proof { lemma_tight_states(s1, *self, ys, m, a, redundant_states@, idx, d); lemma_count(redundant_states@, 0, redundant_states@.len() as int); reveal(shrunk); reveal(PhraseMatcher::folded); reveal(WordMatcher::left); lemma_rising(idx, s1.alive_wordlist@.len() as int); }"),
            ]), header="impl<'word> WordMatcher<'word>")
    m.text("}")
    return m
