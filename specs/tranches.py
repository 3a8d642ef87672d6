"""Which lengths and classes of phrases are possible"""
from build import Module
from extract import Fn, Loop
from matcher import MAP

MOST = "the greatest element is found by a loop"
COLLECT = "collecting is written out as a loop"
SORT = "sorting and removing duplicates are done by wrappers with assumed contracts"
NONES = "allocation is done by a wrapper with an assumed contract"
EACH = "a `for` loop over the elements with their indices is written out as a `while` loop"
RANGE = "a `for` loop over a range is written out as a `while` loop"
RETAIN = "retaining is written out as a loop which removes elements"


def module():
    m = Module("tranches", "matcher.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;

impl ClassMap {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.ok() ensures r == self.keys().len() { unimplemented!() }
}
pub open spec fn ordered(s: Seq<Tranche>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub open spec fn ascending(s: Seq<Tranche>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
#[verifier::external_body]
pub fn sort_tranches(v: &mut Vec<Tranche>)
    ensures final(v)@.len() == old(v)@.len(), ordered(final(v)@), forall|x: Tranche| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { v.sort_unstable() }
#[verifier::external_body]
pub fn dedup_tranches(v: &mut Vec<Tranche>)
    requires ordered(old(v)@)
    ensures final(v)@.len() <= old(v)@.len(), ascending(final(v)@), forall|x: Tranche| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { v.dedup() }
#[verifier::external_body]
pub fn nones(n: usize) -> (r: Vec<Option<usize>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None { vec![None; n] }
pub fn most(v: &Vec<Tranche>) -> (r: Tranche)
    requires v@.len() > 0
    ensures v@.contains(r), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] <= r
{
    let mut i: usize = 1;
    let mut r = v[0];
    while i < v.len()
        invariant 1 <= i <= v@.len(), v@.contains(r), forall|j: int| 0 <= j < i ==> #[trigger] v@[j] <= r
        decreases v@.len() - i
    {
        if v[i] >= r { r = v[i]; }
        i += 1;
    }
    r
}
proof fn lemma_few(s: Seq<Tranche>)
    requires ascending(s)
    ensures s.len() <= 256
{
    if s.len() > 256 {
        lemma_few_below(s, 256);
    }
}
proof fn lemma_few_below(s: Seq<Tranche>, i: int)
    requires ascending(s), 0 <= i < s.len()
    ensures s[i] >= i
    decreases i
{ if i > 0 { lemma_few_below(s, i - 1); assert(s[i - 1] < s[i]); } }

// ---- the rows of each tranche

pub open spec fn slab(t: BitSet3D, i: int) -> Seq<u32> { t.row2d(i as usize) }
pub proof fn lemma_slab(t: BitSet3D, a: int, b: int, n: int, i: int)
    requires dims(t, a, b, n), 0 <= i < a, b < usize::MAX, blocks_for(n) * 32 <= usize::MAX, n >= 1
    ensures t.fits2d(i as usize), slab(t, i).len() == b * blocks_for(n), dims_ref(slab(t, i), blocks_for(n), b, n), t.size.outer_lo(i as usize) == (b * blocks_for(n)) * i, t.size.outer_hi(i as usize) == (b * blocks_for(n)) * (i + 1), 0 <= (b * blocks_for(n)) * i, (b * blocks_for(n)) * (i + 1) <= t.blocks@.len(),
        0 <= b * blocks_for(n), forall|f: int| 0 <= f < b ==> #[trigger] rows(slab(t, i), blocks_for(n), f) == at(t, i, f)
{
    let k = blocks_for(n);
    assert(b * i <= a * b) by (nonlinear_arith) requires i <= a, 0 <= b;
    assert(k * (b * i) == (b * k) * i) by (nonlinear_arith);
    assert(k * (b * i) + b * k == (b * k) * (i + 1)) by (nonlinear_arith);
    assert((b * k) * (i + 1) <= (a * b) * k) by (nonlinear_arith) requires i + 1 <= a, 0 <= b, 0 <= k;
    assert(0 <= (b * k) * i && 0 <= b * k && 0 <= b * i) by (nonlinear_arith) requires 0 <= i, 0 <= b, 0 <= k;
    assert(k * b == b * k) by (nonlinear_arith);
    assert forall|f: int| 0 <= f < b implies #[trigger] rows(slab(t, i), k, f) == at(t, i, f) by {
        lemma_rows_fit(slab(t, i), k, b, n, f);
        lemma_row(t, a, b, n, i, f);
        assert(k * (b * i + f) == (b * k) * i + k * f) by (nonlinear_arith);
        assert(rows(slab(t, i), k, f) =~= at(t, i, f));
    }
}
pub proof fn lemma_slab_splice(t: BitSet3D, u: BitSet3D, a: int, b: int, n: int, i: int, x: Seq<u32>)
    requires dims(t, a, b, n), 0 <= i < a, b < usize::MAX, blocks_for(n) * 32 <= usize::MAX, n >= 1, u.size == t.size, u.blocks@ == splice(t.blocks@, t.size.outer_lo(i as usize), x), x.len() == slab(t, i).len()
    ensures dims(u, a, b, n), slab(u, i) == x, forall|j: int| 0 <= j < a && j != i ==> #[trigger] slab(u, j) == slab(t, j)
{
    lemma_slab(t, a, b, n, i);
    assert(u.blocks@.len() == t.blocks@.len());
    assert(slab(u, i) =~= x);
    let w = b * blocks_for(n);
    assert forall|j: int| 0 <= j < a && j != i implies #[trigger] slab(u, j) == slab(t, j) by {
        lemma_slab(t, a, b, n, j);
        if j < i { assert(w * (j + 1) <= w * i) by (nonlinear_arith) requires j + 1 <= i, 0 <= w; } else { assert(w * (i + 1) <= w * j) by (nonlinear_arith) requires i + 1 <= j, 0 <= w; }
        assert(slab(u, j) =~= slab(t, j));
    }
}

// ---- the states which words of a tranche lead to

/// The table leads from `r` to the state
pub open spec fn leads(t: BitSet3D, r: spec_fn(int, int) -> bool, f: int, x: int) -> bool { exists|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(t, d, f - g), x) }
/// The rows are those of `r`
#[verifier::opaque]
pub open spec fn shows(s: Seq<u32>, k: int, b: int, r: spec_fn(int, int) -> bool) -> bool { forall|f: int, x: int| 0 <= f < b ==> #[trigger] isset(rows(s, k, f), x) == r(f, x) }
impl PhraseMatcher {
    /// By one of the first `done` classes
    pub open spec fn spreading(self, tr: int, r: spec_fn(int, int) -> bool, done: int) -> spec_fn(int, int) -> bool {
        |f: int, x: int| exists|k: int| 0 <= k < done && self.classes.values()[k].min_tranche <= tr && leads(#[trigger] self.classes.keys()[k], r, f, x)
    }
    /// The states to which `w` words may lead, of classes up to `tr`
    pub open spec fn spread(self, tr: int, w: int) -> spec_fn(int, int) -> bool
        decreases w
    {
        if w <= 0 { |f: int, x: int| f == 0 && isset(self.start_states.blocks@, x) } else { self.spreading(tr, self.spread(tr, w - 1), self.classes.keys().len() as int) }
    }
    /// There may be such phrases
    pub open spec fn passes(self, p: SearchPhase) -> bool { exists|f: int| 0 <= f < self.fuzz_limit && #[trigger] self.spread(p.tranche as int, p.depth as int)(f, self.states_len - 1) }
    pub open spec fn passing(self) -> spec_fn(SearchPhase) -> bool { |p: SearchPhase| self.passes(p) }
    pub open spec fn may(self, tr: Tranche, w: int) -> bool { exists|f: int| 0 <= f < self.fuzz_limit && #[trigger] self.spread(tr as int, w)(f, self.states_len - 1) }
    /// All states are in range
    #[verifier::opaque]
    pub open spec fn tidy(self) -> bool {
        &&& self.states_len <= 16384 && self.fuzz_limit <= 16384
        &&& forall|k: int, d: int, f: int, x: int| 0 <= k < self.classes.keys().len() && 0 <= d < self.states_len && 0 <= f < self.fuzz_limit && #[trigger] isset(at(self.classes.keys()[k], d, f), x) ==> x < self.states_len
        &&& forall|x: int| #[trigger] isset(self.start_states.blocks@, x) ==> x < self.states_len
        &&& self.start_states.blocks@.len() == blocks_for(self.states_len as int)
    }
}
proof fn lemma_spread_range(pm: PhraseMatcher, tr: int, w: int, f: int, x: int)
    requires pm.ok(), pm.tidy(), pm.spread(tr, w)(f, x), 0 <= f < pm.fuzz_limit
    ensures 0 <= x < pm.states_len
    decreases w
{
    reveal(PhraseMatcher::tidy);
    if w > 0 {
        let r = pm.spread(tr, w - 1);
        let k = choose|k: int| 0 <= k < pm.classes.keys().len() && pm.classes.values()[k].min_tranche <= tr && leads(#[trigger] pm.classes.keys()[k], r, f, x);
        let t = pm.classes.keys()[k];
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(t, d, f - g), x);
        lemma_spread_range(pm, tr, w - 1, g, d);
        assert(isset(at(pm.classes.keys()[k], d, f - g), x));
    } else { assert(isset(pm.start_states.blocks@, x)); }
}
/// Whatever words lead to is spread
pub proof fn lemma_spread(pm: PhraseMatcher, wl: Seq<&Word>, tr: int, c: Seq<int>, f: int, x: int)
    requires allowed(wl, tr, c), pm.reaches(c)(f, x), forall|i: int| 0 <= i < wl.len() ==> 0 <= #[trigger] pm.word_classes@[i] < pm.classes.keys().len() && pm.classes.values()[pm.word_classes@[i] as int].min_tranche <= wl[i].tranche
    ensures pm.spread(tr, c.len() as int)(f, x)
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        let (g, y) = choose|g: int, y: int| 0 <= g <= f && #[trigger] pm.reaches(d)(g, y) && isset(at(pm.table(c.last()), y, f - g), x);
        assert(allowed(wl, tr, d)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < wl.len() && tranche_of(wl, d[i]) <= tr by { assert(d[i] == c[i]); } }
        lemma_spread(pm, wl, tr, d, g, y);
        let w = c[c.len() - 1];
        assert(0 <= w < wl.len() && tranche_of(wl, w) <= tr);
        let k = pm.word_classes@[w] as int;
        let r = pm.spread(tr, c.len() - 1);
        assert(r(g, y));
        assert(leads(pm.classes.keys()[k], r, f, x));
    }
}
/// No phrase that is accepted is in a phase that is not possible
pub proof fn lemma_passes(pm: PhraseMatcher, wl: Seq<&Word>, p: SearchPhase, c: Seq<int>)
    requires belongs(wl, p, c), pm.accepts(c), forall|i: int| 0 <= i < wl.len() ==> 0 <= #[trigger] pm.word_classes@[i] < pm.classes.keys().len() && pm.classes.values()[pm.word_classes@[i] as int].min_tranche <= wl[i].tranche
    ensures pm.passes(p)
{
    lemma_belongs(wl, p, c);
    let f = choose|f: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.reaches(c)(f, pm.states_len - 1);
    lemma_spread(pm, wl, p.tranche as int, c, f, pm.states_len - 1);
}
/// Rows in range
proof fn lemma_shown_range(pm: PhraseMatcher, s: Seq<u32>, k: int, tr: int, w: int)
    requires pm.ok(), pm.tidy(), shows(s, k, pm.fuzz_limit as int, pm.spread(tr, w))
    ensures forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] isset(rows(s, k, f), x) ==> x < pm.states_len
{
    reveal(shows);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit && #[trigger] isset(rows(s, k, f), x) implies x < pm.states_len by { assert(pm.spread(tr, w)(f, x)); lemma_spread_range(pm, tr, w, f, x); }
}
/// One more class
proof fn lemma_spreading(pm: PhraseMatcher, s: Seq<u32>, k: int, u0: Seq<u32>, u: Seq<u32>, l: int, tr: int, r: spec_fn(int, int) -> bool, j: int)
    requires shows(s, k, pm.fuzz_limit as int, r), shows(u0, l, pm.fuzz_limit as int, pm.spreading(tr, r, j)), stepped(pm.classes.keys()[j], pm.fuzz_limit as int, s, k, u0, u, l), 0 <= j, pm.classes.values()[j].min_tranche <= tr
    ensures shows(u, l, pm.fuzz_limit as int, pm.spreading(tr, r, j + 1))
{
    reveal(shows);
    let t = pm.classes.keys()[j];
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(u, l, f), x) == pm.spreading(tr, r, j + 1)(f, x) by {
        assert(isset(rows(u, l, f), x) == (isset(rows(u0, l, f), x) || through(t, s, k, f, x)));
        assert(isset(rows(u0, l, f), x) == pm.spreading(tr, r, j)(f, x));
        if through(t, s, k, f, x) {
            let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] isset(rows(s, k, g), d) && isset(at(t, d, f - g), x);
            assert(r(g, d));
            assert(leads(pm.classes.keys()[j], r, f, x));
        }
        if pm.spreading(tr, r, j + 1)(f, x) && !pm.spreading(tr, r, j)(f, x) {
            assert(leads(t, r, f, x));
            let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(t, d, f - g), x);
            assert(isset(rows(s, k, g), d));
        }
    }
}
/// A class which does not count
proof fn lemma_not_spreading(pm: PhraseMatcher, u: Seq<u32>, l: int, tr: int, r: spec_fn(int, int) -> bool, j: int)
    requires shows(u, l, pm.fuzz_limit as int, pm.spreading(tr, r, j)), 0 <= j, pm.classes.values()[j].min_tranche > tr
    ensures shows(u, l, pm.fuzz_limit as int, pm.spreading(tr, r, j + 1))
{
    reveal(shows);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(u, l, f), x) == pm.spreading(tr, r, j + 1)(f, x) by {
        assert(isset(rows(u, l, f), x) == pm.spreading(tr, r, j)(f, x));
    }
}
proof fn lemma_spread_none(pm: PhraseMatcher, t: BitSet3D, a: int, tr: int, r: spec_fn(int, int) -> bool, i: int)
    requires dims(t, a, pm.fuzz_limit as int, pm.states_len as int), no_bits(t.blocks@), 0 <= i < a, pm.fuzz_limit < usize::MAX, blocks_for(pm.states_len as int) * 32 <= usize::MAX
    ensures shows(slab(t, i), blocks_for(pm.states_len as int), pm.fuzz_limit as int, pm.spreading(tr, r, 0))
{
    reveal(shows);
    let b = pm.fuzz_limit as int;
    let k = blocks_for(pm.states_len as int);
    lemma_slab(t, a, b, pm.states_len as int, i);
    assert forall|f: int, x: int| 0 <= f < b implies #[trigger] isset(rows(slab(t, i), k, f), x) == pm.spreading(tr, r, 0)(f, x) by {
        lemma_rows_fit(slab(t, i), k, b, pm.states_len as int, f);
        lemma_no_bits_in(t.blocks@, (b * k) * i + k * f, (b * k) * i + k * f + k);
        assert(rows(slab(t, i), k, f) =~= t.blocks@.subrange((b * k) * i + k * f, (b * k) * i + k * f + k));
    }
}
pub proof fn lemma_no_bits_in(s: Seq<u32>, lo: int, hi: int)
    requires no_bits(s), 0 <= lo <= hi <= s.len()
    ensures no_bits(s.subrange(lo, hi))
{
    let t = s.subrange(lo, hi);
    assert forall|i: int| !isset(t, i) by {
        if 0 <= i && i / 32 < t.len() { assert(t[i / 32] == s[lo + i / 32]); assert((i + 32 * lo) / 32 == lo + i / 32 && (i + 32 * lo) % 32 == i % 32); assert(!isset(s, i + 32 * lo)); }
    }
}
/// The start states in the rows without edits
pub open spec fn begun(pm: PhraseMatcher, t: BitSet3D, a: int, n: int) -> bool { forall|i: int, f: int, x: int| 0 <= i < a && 0 <= f < pm.fuzz_limit ==> #[trigger] isset(at(t, i, f), x) == (i < n && f == 0 && isset(pm.start_states.blocks@, x)) }
proof fn lemma_none_begun(pm: PhraseMatcher, t: BitSet3D, a: int)
    requires dims(t, a, pm.fuzz_limit as int, pm.states_len as int), no_bits(t.blocks@)
    ensures begun(pm, t, a, 0)
{
    let b = pm.fuzz_limit as int; let k = blocks_for(pm.states_len as int);
    assert forall|i: int, f: int, x: int| 0 <= i < a && 0 <= f < b implies !#[trigger] isset(at(t, i, f), x) by {
        lemma_row(t, a, b, pm.states_len as int, i, f);
        lemma_index(a, b, k, i, f);
        lemma_no_bits_in(t.blocks@, k * (b * i + f), k * (b * i + f) + k);
    }
}
proof fn lemma_begun(pm: PhraseMatcher, t: BitSet3D, u: BitSet3D, a: int, i: int, x: Seq<u32>)
    requires begun(pm, t, a, i), dims(t, a, pm.fuzz_limit as int, pm.states_len as int), 0 <= i < a, u.size == t.size, u.blocks@ == t.with_row((i as usize, 0), x), x.len() == blocks_for(pm.states_len as int),
        forall|y: int| #[trigger] isset(x, y) == (isset(at(t, i, 0), y) || isset(pm.start_states.blocks@, y))
    ensures begun(pm, u, a, i + 1), dims(u, a, pm.fuzz_limit as int, pm.states_len as int)
{
    lemma_with_row(t, u, a, pm.fuzz_limit as int, pm.states_len as int, i, 0);
    assert forall|j: int, f: int, y: int| 0 <= j < a && 0 <= f < pm.fuzz_limit implies #[trigger] isset(at(u, j, f), y) == (j < i + 1 && f == 0 && isset(pm.start_states.blocks@, y)) by {
        assert(isset(at(t, j, f), y) == (j < i && f == 0 && isset(pm.start_states.blocks@, y)));
        if j != i || f != 0 { assert(at(u, j, f) == at(t, j, f)); }
    }
}
proof fn lemma_all_begun(pm: PhraseMatcher, t: BitSet3D, a: int, i: int, tr: int)
    requires begun(pm, t, a, a), dims(t, a, pm.fuzz_limit as int, pm.states_len as int), 0 <= i < a, pm.fuzz_limit < usize::MAX, blocks_for(pm.states_len as int) * 32 <= usize::MAX
    ensures shows(slab(t, i), blocks_for(pm.states_len as int), pm.fuzz_limit as int, pm.spread(tr, 0))
{
    reveal(shows);
    lemma_slab(t, a, pm.fuzz_limit as int, pm.states_len as int, i);
    assert forall|f: int, x: int| 0 <= f < pm.fuzz_limit implies #[trigger] isset(rows(slab(t, i), blocks_for(pm.states_len as int), f), x) == pm.spread(tr, 0)(f, x) by {
        assert(rows(slab(t, i), blocks_for(pm.states_len as int), f) == at(t, i, f));
    }
}
pub open spec fn first(ts: Seq<Tranche>, j: int, s: int) -> bool { 0 <= j < ts.len() && s <= ts[j] && (j > 0 ==> ts[j - 1] < s) }
/// The first tranche that counts
pub open spec fn mapped(map: Seq<Option<usize>>, ts: Seq<Tranche>, n: int) -> bool {
    forall|s: int| 0 <= s < map.len() ==> if n > 0 && s <= ts[n - 1] { (#[trigger] map[s]) is Some && first(ts, map[s]->0 as int, s) } else { map[s] is None }
}
pub open spec fn both(p: spec_fn(SearchPhase) -> bool, q: spec_fn(SearchPhase) -> bool) -> spec_fn(SearchPhase) -> bool { |x: SearchPhase| p(x) && q(x) }
pub proof fn lemma_filter_both(s: Seq<SearchPhase>, p: spec_fn(SearchPhase) -> bool, q: spec_fn(SearchPhase) -> bool)
    ensures s.filter(p).filter(q) == s.filter(both(p, q))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_filter_both(s.drop_last(), p, q);
        if p(s.last()) { lemma_filter_push(s.drop_last().filter(p), s.last(), q); }
    }
}
pub proof fn lemma_filter_same(s: Seq<SearchPhase>, p: spec_fn(SearchPhase) -> bool, q: spec_fn(SearchPhase) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])
    ensures s.filter(p) == s.filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_filter_same(s.drop_last(), p, q);
        assert(s[s.len() - 1] == s.last());
    }
}
pub proof fn lemma_filter_all(s: Seq<SearchPhase>, p: spec_fn(SearchPhase) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies p(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_filter_all(s.drop_last(), p);
        assert(s[s.len() - 1] == s.last());
        assert(s.drop_last().push(s.last()) =~= s);
    }
    assert(s.filter(p) =~= s);
}
pub open spec fn others(w: int, tr: Tranche) -> spec_fn(SearchPhase) -> bool { |x: SearchPhase| x.depth != w || x.tranche != tr }
/// The phases of the lengths below `w`, and of length `w` in the first `n` tranches
pub open spec fn judged(ts: Seq<Tranche>, w: int, n: int, p: SearchPhase) -> bool { p.depth < w || (p.depth == w && exists|i: int| 0 <= i < n && #[trigger] ts[i] == p.tranche) }
proof fn lemma_may(pm: PhraseMatcher, s: Seq<u32>, k: int, tr: Tranche, w: int)
    requires shows(s, k, pm.fuzz_limit as int, pm.spread(tr as int, w)), pm.states_len >= 1
    ensures pm.may(tr, w) == (exists|f: int| 0 <= f < pm.fuzz_limit && isset(#[trigger] rows(s, k, f), pm.states_len - 1))
{
    reveal(shows);
    if pm.may(tr, w) {
        let f = choose|f: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.spread(tr as int, w)(f, pm.states_len - 1);
        assert(isset(rows(s, k, f), pm.states_len - 1));
    }
    if exists|f: int| 0 <= f < pm.fuzz_limit && isset(#[trigger] rows(s, k, f), pm.states_len - 1) {
        let f = choose|f: int| 0 <= f < pm.fuzz_limit && isset(#[trigger] rows(s, k, f), pm.states_len - 1);
        assert(isset(rows(s, k, f), pm.states_len - 1));
        assert(pm.spread(tr as int, w)(f, pm.states_len - 1));
    }
}
proof fn lemma_judged(pm: PhraseMatcher, q0: Seq<SearchPhase>, ts: Seq<Tranche>, w: int, j: int, keep: spec_fn(SearchPhase) -> bool, keep2: spec_fn(SearchPhase) -> bool)
    requires ascending(ts), 0 <= j < ts.len(), keep2 == (if pm.may(ts[j], w) { keep } else { both(keep, others(w, ts[j])) }),
        forall|i: int| 0 <= i < q0.len() ==> keep(#[trigger] q0[i]) == (judged(ts, w, j, q0[i]) ==> pm.passes(q0[i]))
    ensures forall|i: int| 0 <= i < q0.len() ==> keep2(#[trigger] q0[i]) == (judged(ts, w, j + 1, q0[i]) ==> pm.passes(q0[i]))
{
    assert forall|i: int| 0 <= i < q0.len() implies keep2(#[trigger] q0[i]) == (judged(ts, w, j + 1, q0[i]) ==> pm.passes(q0[i])) by {
        let p = q0[i];
        if p.depth == w && p.tranche == ts[j] {
            assert(judged(ts, w, j + 1, p));
            assert(!judged(ts, w, j, p));
            assert(pm.passes(p) == pm.may(ts[j], w));
        } else {
            assert(others(w, ts[j])(p));
            assert(judged(ts, w, j + 1, p) == judged(ts, w, j, p));
        }
    }
}
proof fn lemma_judged_all(q0: Seq<SearchPhase>, ts: Seq<Tranche>, w: int)
    requires forall|i: int| 0 <= i < q0.len() ==> ts.contains((#[trigger] q0[i]).tranche)
    ensures forall|i: int| 0 <= i < q0.len() ==> judged(ts, w, ts.len() as int, #[trigger] q0[i]) == judged(ts, w + 1, 0, q0[i])
{
    assert forall|i: int| 0 <= i < q0.len() implies judged(ts, w, ts.len() as int, #[trigger] q0[i]) == judged(ts, w + 1, 0, q0[i]) by {
        let j = choose|j: int| 0 <= j < ts.len() && ts[j] == q0[i].tranche;
        assert(ts[j] == q0[i].tranche);
    }
}
proof fn lemma_mapped(pm: PhraseMatcher, q0: Seq<SearchPhase>, ts: Seq<Tranche>, map: Seq<Option<usize>>, s: int)
    requires ascending(ts), ts.len() > 0, mapped(map, ts, ts.len() as int), 0 <= s, forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] < map.len(),
        forall|i: int| 0 <= i < q0.len() ==> ts.contains((#[trigger] q0[i]).tranche), exists|i: int| 0 <= i < q0.len() && s <= (#[trigger] q0[i]).tranche
    ensures s < map.len(), map[s] is Some, first(ts, map[s]->0 as int, s)
{
    let i = choose|i: int| 0 <= i < q0.len() && s <= (#[trigger] q0[i]).tranche;
    let j = choose|j: int| 0 <= j < ts.len() && ts[j] == q0[i].tranche;
    assert(ts[j] == q0[i].tranche);
    let l = ts.len() - 1;
    assert(ts[l] >= ts[j]) by { if j < l { assert(ts[j] < ts[l]); } }
    assert(ts[l] < map.len());
}
""")
    m.text("impl PhraseMatcher {")
    m.fn("filter_search_phases", Fn(
        sig="""    requires self.ok(), self.tidy(), forall|i: int| 0 <= i < old(search_phases)@.len() ==> 1 <= (#[trigger] old(search_phases)@[i]).depth < usize::MAX
    ensures final(search_phases)@ == old(search_phases)@.filter(self.passing())""",
        rules=[("search_phases.iter().map(|$ip| $e).max().unwrap()", "{ let mut k_: usize = 1; let $ip = &search_phases[0]; let mut most_ = $e; while k_ < search_phases.len() { let $ip = &search_phases[k_]; let x_ = $e; if x_ >= most_ { most_ = x_; } k_ += 1; } most_ }", MOST),
               ("let mut ts: Vec<_> = search_phases.iter().map(|$ip| $e).collect();", "let mut ts: Vec<Tranche> = Vec::new(); let mut k_: usize = 0; while k_ < search_phases.len() { let $ip = &search_phases[k_]; ts.push($e); k_ += 1; }", COLLECT),
               ("ts.sort_unstable()", "sort_tranches(&mut ts)", SORT), ("ts.dedup()", "dedup_tranches(&mut ts)", SORT),
               ("vec![None; $n]", "nones($n)", NONES), ("*$rx.iter().max().unwrap()", "most(&$rx)", MOST),
               ("$rx.iter().enumerate().for_each(|($ii, &$it)| { $z });", "let mut n_: usize = 0; while n_ < $rx.len() { let $ii = n_; let $it = $rx[n_]; n_ += 1; $z }", EACH),
               ("for w in 1..=$e { $z }", "let mut w: usize = 1; let end_ = $e; while w <= end_ { $z w += 1; }", RANGE),
               ("for ($ia, $ib) in self.classes.iter() { $z }", "let mut c_: usize = 0; while c_ < self.classes.len() { let ($ia, $ib) = self.classes.get_index(c_).unwrap(); c_ += 1; $z }", EACH),
               ("for t in $a..$e { $z }", "let mut t: usize = $a; while t < $e { $z t += 1; }", RANGE),
               ("for ($ii, &$it) in $rx.iter().enumerate() { $z }", "let mut j_: usize = 0; while j_ < $rx.len() { let $ii = j_; let $it = $rx[j_]; j_ += 1; $z }", EACH),
               ("search_phases.retain(|$ip| $e);", "{ let mut k_: usize = 0; while k_ < search_phases.len() { let keep_ = { let $ip = &search_phases[k_]; $e }; if keep_ { k_ += 1; } else { search_phases.remove(k_); } } }", RETAIN),
               ],
        attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(120)]",
        start="        let ghost q0 = search_phases@; let ghost n = self.states_len as int; let ghost b = self.fuzz_limit as int; let ghost k = blocks_for(n); proof { usize_64(); reveal(PhraseMatcher::ok); reveal(PhraseMatcher::tidy); assert(q0.len() == 0 ==> q0.filter(self.passing()) =~= q0) by { reveal(Seq::filter); } }",
        at=[("let tranches_len", "before", """        let ghost ts = tranches@; let ghost a = ts.len() as int;
        proof {
            lemma_few(ts);
            assert(a * b <= 256 * 16384 && 0 <= a * b) by (nonlinear_arith) requires 0 <= a <= 256, 0 <= b <= 16384;
            assert((a * b) * k <= 256 * 16384 * 513 && 0 <= (a * b) * k) by (nonlinear_arith) requires 0 <= a * b <= 256 * 16384, 0 <= k <= 513;
        }"""),
            ("sort_tranches(&mut ts)", "before", "            let ghost ts0_ = ts@; "),
            ("dedup_tranches(&mut ts);", "after", "            proof { assert forall|i: int| 0 <= i < q0.len() implies ts@.contains((#[trigger] q0[i]).tranche) by { assert(ts0_[i] == q0[i].tranche); assert(ts0_.contains(ts0_[i])); } assert(ts@.contains(q0[0].tranche)); }"),
            ],
        loops=[
            Loop("            invariant 1 <= k_ <= q0.len(), forall|i: int| 0 <= i < k_ ==> (#[trigger] q0[i]).depth <= most_, most_ < usize::MAX\n            decreases q0.len() - k_"),
            Loop("            invariant k_ <= q0.len(), ts@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] ts@[i] == q0[i].tranche\n            decreases q0.len() - k_"),
            Loop("""            invariant n_ <= tranches@.len(), mapped(map@, tranches@, n_ as int), map@.len() == greatest_ + 1
            decreases tranches@.len() - n_""", before="        let ghost greatest_ = map@.len() - 1;"),
            Loop("""                invariant_except_break map@.len() == greatest_ + 1, t <= tranches@[i as int],
                    forall|s: int| 0 <= s <= greatest_ ==> if s > tranches@[i as int] { (#[trigger] map@[s]) is None } else if s > t { map@[s] == Some(i) && first(tranches@, i as int, s) } else if i > 0 && s <= tranches@[i - 1] { map@[s] is Some && first(tranches@, map@[s]->0 as int, s) } else { map@[s] is None }
                ensures map@.len() == greatest_ + 1, mapped(map@, tranches@, n_ as int)
                decreases t"""),
            Loop("""            invariant t <= a, dims(states_fuzz_dst, a, b, n), begun(*self, states_fuzz_dst, a, t as int)
            decreases a - t""", before="        proof { assert(dims(states_fuzz_dst, a, b, n)); lemma_none_begun(*self, states_fuzz_dst, a); }",
                start="            let ghost s_ = states_fuzz_dst; let ghost t_ = t; proof { lemma_row(s_, a, b, n, t as int, 0); lemma_unit(self.start_states); }",
                end="            proof { lemma_begun(*self, s_, states_fuzz_dst, a, t_ as int, choose|x: Seq<u32>| x.len() == k && states_fuzz_dst.blocks@ == #[trigger] s_.with_row((t_, 0), x) && forall|y: int| #[trigger] isset(x, y) == (isset(at(s_, t_ as int, 0), y) || isset(self.start_states.blocks@, y))); }",
                after="        let ghost mut keep_ = |p: SearchPhase| true; proof { assert forall|i: int| 0 <= i < a implies shows(slab(states_fuzz_dst, i), k, b, self.spread(#[trigger] ts[i] as int, 0)) by { lemma_all_begun(*self, states_fuzz_dst, a, i, ts[i] as int); } }"),
            Loop("""            invariant 1 <= w <= end_ + 1, dims(states_fuzz_dst, a, b, n), forall|i: int| 0 <= i < a ==> shows(slab(states_fuzz_dst, i), k, b, self.spread(#[trigger] ts[i] as int, w - 1)),
                search_phases@ == q0.filter(keep_), forall|i: int| 0 <= i < q0.len() ==> keep_(#[trigger] q0[i]) == (judged(ts, w as int, 0, q0[i]) ==> self.passes(q0[i]))
            decreases end_ + 1 - w""", after="        proof { lemma_filter_same(q0, keep_, self.passing()); }", before="        proof { lemma_filter_all(q0, keep_); }"),
            Loop("""                invariant c_ <= self.classes.keys().len(), dims(next_states_fuzz_dst, a, b, n), forall|i: int| 0 <= i < a ==> shows(slab(next_states_fuzz_dst, i), k, b, self.spreading(#[trigger] ts[i] as int, self.spread(ts[i] as int, w - 1), c_ as int))
                decreases self.classes.keys().len() - c_""",
                before="            proof { assert(dims(next_states_fuzz_dst, a, b, n)); assert forall|i: int| 0 <= i < a implies shows(slab(next_states_fuzz_dst, i), k, b, self.spreading(#[trigger] ts[i] as int, self.spread(ts[i] as int, w - 1), 0)) by { lemma_spread_none(*self, next_states_fuzz_dst, a, ts[i] as int, self.spread(ts[i] as int, w - 1), i); } }"),
            Loop("""                    invariant x_ <= t <= a, dims(next_states_fuzz_dst, a, b, n),
                        forall|i: int| 0 <= i < t ==> shows(slab(next_states_fuzz_dst, i), k, b, self.spreading(#[trigger] ts[i] as int, self.spread(ts[i] as int, w - 1), c_ as int)),
                        forall|i: int| t <= i < a ==> shows(slab(next_states_fuzz_dst, i), k, b, self.spreading(#[trigger] ts[i] as int, self.spread(ts[i] as int, w - 1), c_ - 1))
                    decreases a - t""",
                before="                let ghost x_ = t as int; proof { assert(self.classes.values()[c_ - 1].min_tranche <= q0[0].tranche); lemma_mapped(*self, q0, ts, tranche_map@, self.classes.values()[c_ - 1].min_tranche as int); assert forall|i: int| 0 <= i < x_ implies shows(slab(next_states_fuzz_dst, i), k, b, self.spreading(#[trigger] ts[i] as int, self.spread(ts[i] as int, w - 1), c_ as int)) by { lemma_not_spreading(*self, slab(next_states_fuzz_dst, i), k, ts[i] as int, self.spread(ts[i] as int, w - 1), c_ - 1); } }",
                start="                    let ghost u_ = next_states_fuzz_dst; let ghost t_ = t; proof { lemma_slab(states_fuzz_dst, a, b, n, t as int); lemma_slab(u_, a, b, n, t as int); lemma_shown_range(*self, slab(states_fuzz_dst, t as int), k, ts[t as int] as int, w - 1); }",
                end="""                    proof {
                        let r_ = self.spread(ts[t_ as int] as int, w - 1);
                        let v_ = choose|v: Seq<u32>| v.len() == slab(u_, t_ as int).len() && next_states_fuzz_dst.blocks@ == #[trigger] splice(u_.blocks@, u_.size.outer_lo(t_), v) && stepped(self.classes.keys()[c_ - 1], b, slab(states_fuzz_dst, t_ as int), k, slab(u_, t_ as int), v, k);
                        lemma_slab_splice(u_, next_states_fuzz_dst, a, b, n, t_ as int, v_);
                        lemma_spreading(*self, slab(states_fuzz_dst, t_ as int), k, slab(u_, t_ as int), v_, k, ts[t_ as int] as int, r_, c_ - 1);
                    }"""),
            Loop("""                invariant j_ <= a, search_phases@ == q0.filter(keep_), forall|i: int| 0 <= i < q0.len() ==> keep_(#[trigger] q0[i]) == (judged(ts, w as int, j_ as int, q0[i]) ==> self.passes(q0[i]))
                decreases a - j_""",
                start="                let ghost before_ = keep_; let ghost ok_ = self.may(ts[j_ as int], w as int); proof { assert(ts.contains(ts[j_ as int])); lemma_slab(next_states_fuzz_dst, a, b, n, j_ as int); lemma_may(*self, slab(next_states_fuzz_dst, j_ as int), k, ts[j_ as int], w as int); }",
                end="                proof { if !ok_ { lemma_filter_both(q0, keep_, others(w as int, tranche)); keep_ = both(keep_, others(w as int, tranche)); } lemma_judged(*self, q0, ts, w as int, j_ - 1, before_, keep_); }",
                after="            proof { lemma_judged_all(q0, ts, w as int); }"),
            Loop("""                    invariant k_ <= search_phases@.len(), n_ + search_phases@.len() - k_ == q1_.len(), 0 <= n_, search_phases@ == q1_.take(n_).filter(o_) + q1_.skip(n_), k_ == q1_.take(n_).filter(o_).len()
                    decreases search_phases@.len() - k_""",
                before="                    let ghost mut n_ = 0int; let ghost o_ = others(w as int, tranche); let ghost q1_ = search_phases@; proof { assert(q1_.take(0).filter(o_) =~= Seq::<SearchPhase>::empty()) by { reveal(Seq::filter); } assert(q1_.skip(0) =~= q1_); }",
                start="                    proof { assert(q1_.take(n_ + 1) =~= q1_.take(n_).push(q1_[n_])); lemma_filter_push(q1_.take(n_), q1_[n_], o_); n_ = n_ + 1; }",
                after="                    proof { assert(q1_.take(n_) =~= q1_); assert(search_phases@ =~= q1_.filter(o_)); }"),
        ]), header="impl PhraseMatcher")
    m.text("}")
    m.text("impl<'word> WordMatcher<'word> {")
    m.fn("filter_search_phases", Fn(
        sig="""    requires self.phrase_matcher.ok(), self.phrase_matcher.tidy(), forall|i: int| 0 <= i < old(search_phases)@.len() ==> 1 <= (#[trigger] old(search_phases)@[i]).depth < usize::MAX
    ensures final(search_phases)@ == old(search_phases)@.filter(self.phrase_matcher.passing())"""), header="impl<'word> WordMatcher<'word>")
    m.fn("into_phrase_matcher", Fn(sig="    ensures r == Some(self.phrase_matcher)"), header="impl<'word> WordMatcher<'word>")
    m.text("}")
    return m
