"""Evaluation of the words of a list, and the steps of phrases"""
from build import Module, struct
from extract import Fn, Loop

CLOCK = "whether the deadline has passed is decided by a function of an assumed contract: the time on the clock (an additional parameter) increases by any amount"
TIME = "the clock becomes a parameter"
ITSELF = "a function of a trait becomes one of the type"
MAP = "the IndexMap is a type of the same operations with assumed contracts"
SUB = "a subslice is taken by a wrapper with an assumed contract"
DEFAULT = "the derived default"


def module():
    m = Module("matcher", "matcher.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use std::time::Instant;

/// (of the platform)
#[verifier::external_body]
pub proof fn usize_64() ensures usize::MAX == 0xffff_ffff_ffff_ffff {}

// ---- what stands for types and functions of libraries

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExInstant(std::time::Instant);

/// The time
#[verifier::external_body]
pub struct Clock { }
impl Clock {
    pub uninterp spec fn now(&self) -> int;
    /// At any time
    #[verifier::external_body]
    pub fn any() -> (r: Clock) { Clock { } }
}
pub uninterp spec fn due(deadline: Instant) -> int;
pub open spec fn past(clock: Clock, deadline: Option<Instant>) -> bool { deadline is Some && clock.now() > due(deadline->0) }
/// Has the deadline passed?
#[verifier::external_body]
pub fn late(deadline: Option<Instant>, clock_: &mut Clock) -> (r: bool) ensures final(clock_).now() >= old(clock_).now(), r == past(*final(clock_), deadline) { deadline.is_some() && Some(Instant::now()) > deadline }
#[verifier::external_body]
pub fn tables_new(t: BitSet3D, n: usize) -> (r: Vec<BitSet3D>) ensures r@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] r@[j]).blocks@ == t.blocks@ && r@[j].size == t.size { vec![t; n] }
#[verifier::external_body]
pub fn tables_from(s: &mut Vec<BitSet3D>, k: usize) -> (r: &mut [BitSet3D])
    requires k <= old(s)@.len()
    ensures r@ == old(s)@.skip(k as int), final(r)@.len() == r@.len(), final(s)@ == old(s)@.take(k as int) + final(r)@ { &mut s[k..] }
""")
    struct(m, "WordClass")
    m.text(r"""
pub open spec fn same_key(x: BitSet3D, y: BitSet3D) -> bool { x.size == y.size && x.blocks@ == y.blocks@ }

/// Stands for IndexMap<BitSet3D, WordClass>: entries with distinct keys, in the order of their insertion
#[verifier::external_body]
pub struct ClassMap { }
pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
pub struct OccupiedEntry<'a> { pub map: &'a mut ClassMap, pub i: usize }
pub struct VacantEntry<'a> { pub map: &'a mut ClassMap, pub key: BitSet3D }
impl ClassMap {
    pub uninterp spec fn keys(&self) -> Seq<BitSet3D>;
    pub uninterp spec fn values(&self) -> Seq<WordClass>;
    pub open spec fn ok(&self) -> bool { self.keys().len() == self.values().len() <= usize::MAX }
    #[verifier::external_body]
    pub fn new() -> (r: ClassMap) ensures r.ok(), r.keys().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: BitSet3D, v: WordClass)
        requires old(self).ok(), forall|i: int| 0 <= i < old(self).keys().len() ==> !same_key(#[trigger] old(self).keys()[i], k)
        ensures final(self).ok(), final(self).keys() == old(self).keys().push(k), final(self).values() == old(self).values().push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_index(&self, i: usize) -> (r: Option<(&BitSet3D, &WordClass)>)
        requires self.ok()
        ensures i < self.keys().len() ==> r == Some((&self.keys()[i as int], &self.values()[i as int])), i >= self.keys().len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, key: BitSet3D) -> (r: Entry<'_>)
        requires old(self).ok()
        ensures
            r is Occupied ==> *r->Occupied_0.map == *old(self) && *final(r->Occupied_0.map) == *final(self) && r->Occupied_0.i < old(self).keys().len() && same_key(old(self).keys()[r->Occupied_0.i as int], key),
            r is Vacant ==> *r->Vacant_0.map == *old(self) && *final(r->Vacant_0.map) == *final(self) && r->Vacant_0.key == key && (forall|i: int| 0 <= i < old(self).keys().len() ==> !same_key(#[trigger] old(self).keys()[i], key)),
        { unimplemented!() }
}
impl<'a> Entry<'a> {
    #[verifier::external_body]
    pub fn index(&self) -> (r: usize)
        ensures self is Occupied ==> r == self->Occupied_0.i, self is Vacant ==> r == self->Vacant_0.map.keys().len() { unimplemented!() }
}
impl<'a> OccupiedEntry<'a> {
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut WordClass)
        requires old(self).map.ok(), old(self).i < old(self).map.keys().len()
        ensures *r == old(self).map.values()[old(self).i as int], final(self).i == old(self).i, *final(final(self).map) == *final(old(self).map),
            final(self).map.ok(), final(self).map.keys() == old(self).map.keys(), final(self).map.values() == old(self).map.values().update(old(self).i as int, *final(r)) { unimplemented!() }
}
impl<'a> VacantEntry<'a> {
    pub open spec fn cur(self) -> ClassMap { *self.map }
    #[verifier::external_body]
    pub fn insert(self, v: WordClass)
        requires self.cur().ok()
        ensures final(self.map).ok(), final(self.map).keys() == self.cur().keys().push(self.key), final(self.map).values() == self.cur().values().push(v) { unimplemented!() }
}
""")
    struct(m, "PhraseMatcher", rules=[("IndexMap<BitSet3D, WordClass>", "ClassMap", MAP)])
    struct(m, "WordMatcher")
    struct(m, "WordMatcherIter")
    m.text(r"""
// ---- specifications

/// The tables are those of the prefixes of `p`
#[verifier::opaque]
pub open spec fn cached(e: Expression, a: int, ts: Seq<BitSet3D>, p: Seq<Char>) -> bool {
    p.len() > 0 ==> kept(e, a, p) && (forall|j: int| 0 <= j <= p.len() ==> #[trigger] e.correct(ts[j], a, p.take(j)))
}
/// The words belong to the classes
#[verifier::opaque]
pub open spec fn classed(e: Expression, a: int, pm: PhraseMatcher, ws: Seq<&Word>) -> bool {
    ws.len() == pm.word_classes@.len() && (forall|i: int| 0 <= i < ws.len() ==> #[trigger] in_class(e, a, pm.classes, pm.word_classes@[i], ws[i].chars@))
}
#[verifier::opaque]
pub open spec fn none_found(e: Expression, ws: Seq<&Word>, lo: int, hi: int) -> bool { forall|k: int| lo <= k < hi ==> !finds(e, (#[trigger] ws[k]).chars@) }
proof fn lemma_none_found(e: Expression, ws: Seq<&Word>, lo: int, hi: int)
    requires none_found(e, ws, lo, hi), !finds(e, ws[hi].chars@)
    ensures none_found(e, ws, lo, hi + 1)
{ reveal(none_found); }
pub open spec fn in_class(e: Expression, a: int, map: ClassMap, c: usize, w: Seq<Char>) -> bool {
    c < map.keys().len() && e.correct(map.keys()[c as int], a, w)
}
impl PhraseMatcher {
    /// The expression as it was given (it may be simplified for a word list)
    pub open spec fn original(self) -> bool { self.expression.wf() && self.states_len == self.expression.n() && self.fuzz_limit == self.expression.fuzz + 1 }
    #[verifier::opaque]
    pub open spec fn ok(self) -> bool {
        &&& self.states_len >= 1 && self.fuzz_limit >= 1
        &&& self.classes.ok() && self.classes.keys().len() >= 1
        &&& forall|i: int| 0 <= i < self.classes.keys().len() ==> dims(#[trigger] self.classes.keys()[i], self.states_len as int, self.fuzz_limit as int, self.states_len as int)
        &&& forall|i: int| 0 <= i < self.classes.keys().len() ==> (#[trigger] self.classes.values()[i]).words_count <= self.word_classes@.len() && self.classes.values()[i].min_tranche == 0
    }
}
impl PhraseMatcher {
    /// As it was made for the expression, apart from the classes that were added
    #[verifier::opaque]
    pub open spec fn fresh(self) -> bool {
        let e = self.expression;
        &&& self.start_states.blocks@ == e.states@[0].epsilon_states.blocks@
        &&& self.classes.keys().len() >= 1 && e.no_rows(self.classes.keys()[0], e.n() as int)
        &&& forall|k: int| 0 <= k < self.classes.keys().len() ==> tidy(#[trigger] self.classes.keys()[k], e.n() as int, e.fuzz + 1, e.n() as int)
    }
}
impl<'word> WordMatcher<'word> {
    /// The state between words, where the first `a` states are considered
    pub open spec fn inv(self, a: int) -> bool {
        let pm = self.phrase_matcher;
        let e = pm.expression;
        let ts = self.table_char_src_fuzz_dst@;
        &&& pm.original() && pm.ok() && 1 <= a <= e.n() && (a == e.n() ==> pm.fresh())
        &&& forall|j: int| 0 <= j < ts.len() ==> #[trigger] e.table(ts[j])
        &&& self.table_chars@.len() < ts.len() && good(self.table_chars@)
        &&& cached(e, a, ts, self.table_chars@)
        &&& self.alive_wordlist@.len() == pm.word_classes@.len() <= self.word_index
        &&& pm.classes.keys().len() <= pm.word_classes@.len() + 1
        &&& classed(e, a, pm, self.alive_wordlist@)
    }
    pub open spec fn finds(self, w: &Word) -> bool { finds(self.phrase_matcher.expression, w.chars@) }
    /// Those of the words which are kept for phrases
    pub open spec fn keeps(self, ws: Seq<&'word Word>, a: int) -> Seq<&'word Word> { ws.filter(|w: &'word Word| kept(self.phrase_matcher.expression, a, w.chars@)) }
    pub open spec fn ready(self, ws: Seq<&'word Word>, single: bool) -> bool { self.inv(self.phrase_matcher.expression.starts(single)) && self.fits(ws) && self.word_index <= ws.len() }
    /// More words have been evaluated
    pub open spec fn advanced(self, next: Self, ws: Seq<&'word Word>, single: bool) -> bool {
        &&& next.phrase_matcher.expression == self.phrase_matcher.expression && next.table_char_src_fuzz_dst@.len() == self.table_char_src_fuzz_dst@.len()
        &&& self.word_index <= next.word_index <= ws.len()
        &&& next.alive_wordlist@ == self.alive_wordlist@ + self.keeps(ws.subrange(self.word_index as int, next.word_index as int), self.phrase_matcher.expression.starts(single))
    }
    /// The first of them that is matched
    pub open spec fn found(self, next: Self, ws: Seq<&'word Word>, r: Option<&'word Word>) -> bool {
        match r {
            Some(word) => next.word_index > self.word_index && word == ws[next.word_index - 1] && self.finds(word) && none_found(self.phrase_matcher.expression, ws, self.word_index as int, next.word_index - 1),
            None => none_found(self.phrase_matcher.expression, ws, self.word_index as int, next.word_index as int),
        }
    }
    pub open spec fn fits(self, ws: Seq<&'word Word>) -> bool {
        ws.len() < 0x7fff_ffff && (forall|i: int| 0 <= i < ws.len() ==> good((#[trigger] ws[i]).chars@) && ws[i].chars@.len() < self.table_char_src_fuzz_dst@.len())
    }
}
pub proof fn lemma_filter_push<A>(s: Seq<A>, x: A, p: spec_fn(A) -> bool)
    ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{
    reveal(Seq::filter);
    assert(s.push(x).drop_last() =~= s);
}
/// `correct` only depends on the rows
proof fn lemma_same_key(e: Expression, t: BitSet3D, u: BitSet3D, a: int, w: Seq<Char>)
    requires same_key(t, u), e.correct(t, a, w)
    ensures e.correct(u, a, w)
{
    assert forall|s: int, f: int| at(t, s, f) == at(u, s, f) by {}
    assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] isset(at(u, s, f), x) implies e.reach(s, w, f)(x) by { assert(isset(at(t, s, f), x)); }
    assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] e.reach(s, w, f)(x) implies has(u, s, f, x) by {
        assert(has(t, s, f, x));
        let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(t, s, g), x);
        assert(isset(at(u, s, g), x));
    }
}
proof fn lemma_correct(e: Expression, t: BitSet3D, a: int, w: Seq<Char>)
    requires e.correct(t, a, w)
    ensures e.between(t, a, w)
{
    assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] e.reach0(s, w, f)(x) implies has(t, s, f, x) by { assert(e.reach(s, w, f)(x)); }
}
/// The rows at the start of a word
pub open spec fn initial(e: Expression, t: BitSet3D, k: int) -> bool {
    &&& forall|s: int, x: int| 0 <= s < k ==> #[trigger] isset(at(t, s, 0), x) == eps(e.states@, s, x)
    &&& forall|s: int, f: int| 0 <= s < e.n() && 0 <= f <= e.fuzz && (s >= k || f > 0) ==> no_bits(#[trigger] at(t, s, f))
}
proof fn lemma_initial(e: Expression, t: BitSet3D, a: int, w: Seq<Char>)
    requires initial(e, t, e.n() as int), w.len() == 0, a <= e.n()
    ensures e.between(t, a, w)
{
    assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] isset(at(t, s, f), x) implies e.reach(s, w, f)(x) by {
        if f > 0 { assert(no_bits(at(t, s, f))); }
        assert(e.reach0(s, w, f)(x));
    }
    assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] e.reach0(s, w, f)(x) implies has(t, s, f, x) by { assert(isset(at(t, s, 0), x)); }
}
proof fn lemma_initial_step(e: Expression, t: BitSet3D, u: BitSet3D, k: int)
    requires initial(e, t, k), e.table(t), 0 <= k < e.n(), u.size == t.size,
        exists|x: Seq<u32>| x.len() == blocks_for(e.n() as int) && u.blocks@ == #[trigger] t.with_row((k as usize, 0), x) && (forall|i: int| #[trigger] isset(x, i) == (isset(at(t, k, 0), i) || eps(e.states@, k, i)))
    ensures initial(e, u, k + 1), e.table(u)
{
    let n = e.n() as int;
    lemma_with_row(t, u, n, e.fuzz + 1, n, k, 0);
    let x = choose|x: Seq<u32>| x.len() == blocks_for(n) && u.blocks@ == #[trigger] t.with_row((k as usize, 0), x) && (forall|i: int| #[trigger] isset(x, i) == (isset(at(t, k, 0), i) || eps(e.states@, k, i)));
    assert(at(u, k, 0) == x);
    assert(no_bits(at(t, k, 0)));
    assert forall|s: int, y: int| 0 <= s < k + 1 implies #[trigger] isset(at(u, s, 0), y) == eps(e.states@, s, y) by { if s < k { assert(at(u, s, 0) == at(t, s, 0)); } }
    assert forall|s: int, f: int| 0 <= s < n && 0 <= f <= e.fuzz && (s >= k + 1 || f > 0) implies no_bits(#[trigger] at(u, s, f)) by { assert(at(u, s, f) == at(t, s, f)); }
}
proof fn lemma_cleared(e: Expression, t: BitSet3D)
    requires e.table(t), no_bits(t.blocks@), e.wf()
    ensures initial(e, t, 0)
{
    let n = e.n() as int;
    assert forall|s: int, f: int| 0 <= s < n && 0 <= f <= e.fuzz implies no_bits(#[trigger] at(t, s, f)) by {
        lemma_row(t, n, e.fuzz + 1, n, s, f);
        lemma_index(n, e.fuzz + 1, blocks_for(n), s, f);
        let p = blocks_for(n) * ((e.fuzz + 1) * s + f);
        assert forall|i: int| !isset(at(t, s, f), i) by { if isset(at(t, s, f), i) { assert(isset(t.blocks@, 32 * p + i)); } }
    }
}
/// After the rows of a word have been computed, from the prefix it has in common with the one before
proof fn lemma_refill(e: Expression, a: int, ts0: Seq<BitSet3D>, ts1: Seq<BitSet3D>, p0: Seq<Char>, w: Seq<Char>, p: int, t0: BitSet3D, tail: Seq<BitSet3D>, r: int)
    requires 0 <= p <= p0.len(), p <= w.len(), w.take(p) == p0.take(p), cached(e, a, ts0, p0), p < ts0.len(), ts1 == ts0.take(p) + tail, e.between(t0, a, w.take(p)),
        e.filled(t0, tail, a, w.skip(p), r + 1), e.running(tail, a, w.skip(p), r), 0 <= r <= w.len() - p, r < tail.len()
    ensures cached(e, a, ts1, w.take(p + r)), kept(e, a, w.take(p + r)), e.correct(ts1[p + r], a, w.take(p + r)), ts1[p + r] == tail[r]
{
    reveal(cached);
    let v = w.take(p + r);
    assert forall|j: int| 0 <= j <= p + r implies #[trigger] e.correct(ts1[j], a, w.take(j)) by {
        if j < p {
            assert(ts1[j] == ts0[j]);
            assert(w.take(j) =~= w.take(p).take(j));
            assert(p0.take(j) =~= p0.take(p).take(j));
            assert(e.correct(ts0[j], a, p0.take(j)));
        } else {
            assert(ts1[j] == tail[j - p]);
            assert(e.correct(tail[j - p], a, w.take(p) + w.skip(p).take(j - p)));
            assert(w.take(p) + w.skip(p).take(j - p) =~= w.take(j));
        }
    }
    assert forall|j: int| 0 <= j <= v.len() implies #[trigger] e.correct(ts1[j], a, v.take(j)) by { assert(v.take(j) =~= w.take(j)); assert(e.correct(ts1[j], a, w.take(j))); }
    assert forall|j: int| 0 <= j < v.len() && !e.skips(v[j]) implies live(e, a, #[trigger] v.take(j)) by {
        assert(v[j] == w[j]);
        if j < p {
            assert(w[j] == w.take(p)[j] && p0[j] == p0.take(p)[j]);
            assert(v.take(j) =~= w.take(p).take(j) && p0.take(j) =~= p0.take(p).take(j));
            assert(live(e, a, p0.take(j)));
        } else {
            let k = j - p;
            assert(w.skip(p)[k] == w[j]);
            assert(!e.no_rows(tail[k], a));
            let (s, f) = choose|s: int, f: int| 0 <= s < a && 0 <= f <= e.fuzz && !no_bits(#[trigger] at(tail[k], s, f));
            let x = choose|x: int| isset(at(tail[k], s, f), x);
            assert(e.correct(ts1[j], a, v.take(j)));
            assert(ts1[j] == tail[k]);
            assert(e.reach(s, v.take(j), f)(x));
        }
    }
    assert(e.correct(ts1[p + r], a, w.take(p + r)));
}
/// The table of a common prefix
proof fn lemma_cached(e: Expression, a: int, ts: Seq<BitSet3D>, p0: Seq<Char>, p: int)
    requires cached(e, a, ts, p0), 0 < p <= p0.len()
    ensures e.between(ts[p], a, p0.take(p))
{
    reveal(cached);
    assert(e.correct(ts[p], a, p0.take(p)));
    lemma_correct(e, ts[p], a, p0.take(p));
}
/// One more word
proof fn lemma_classed(e: Expression, a: int, pm0: PhraseMatcher, pm: PhraseMatcher, ws: Seq<&Word>, w: &Word, t: BitSet3D)
    requires classed(e, a, pm0, ws), e.correct(t, a, w.chars@), pm0.classes.keys().is_prefix_of(pm.classes.keys()), pm.word_classes@.len() == pm0.word_classes@.len() + 1, pm.word_classes@.drop_last() == pm0.word_classes@,
        pm.word_classes@.last() < pm.classes.keys().len(), same_key(pm.classes.keys()[pm.word_classes@.last() as int], t)
    ensures classed(e, a, pm, ws.push(w))
{
    reveal(classed);
    let vs = ws.push(w);
    lemma_same_key(e, t, pm.classes.keys()[pm.word_classes@.last() as int], a, w.chars@);
    assert forall|i: int| 0 <= i < vs.len() implies #[trigger] in_class(e, a, pm.classes, pm.word_classes@[i], vs[i].chars@) by {
        if i < ws.len() {
            assert(in_class(e, a, pm0.classes, pm0.word_classes@[i], ws[i].chars@));
            assert(pm.word_classes@[i] == pm.word_classes@.drop_last()[i]);
        }
    }
}
pub proof fn lemma_no_rows(e: Expression, t: BitSet3D)
    requires e.table(t), no_bits(t.blocks@), e.wf()
    ensures e.no_rows(t, e.n() as int), tidy(t, e.n() as int, e.fuzz + 1, e.n() as int)
{
    lemma_cleared(e, t);
    assert forall|s: int, f: int| 0 <= s < e.n() && 0 <= f <= e.fuzz implies no_bits(#[trigger] at(t, s, f)) by {}
}
/// One more class
proof fn lemma_fresh(pm0: PhraseMatcher, pm: PhraseMatcher, w: Seq<Char>, t: BitSet3D)
    requires pm0.fresh(), pm.expression == pm0.expression, pm.start_states == pm0.start_states, pm0.expression.wf(), pm0.expression.correct(t, pm0.expression.n() as int, w), pm0.classes.keys().is_prefix_of(pm.classes.keys()), pm.word_classes@.len() >= 1,
        pm.classes.keys().len() == pm0.classes.keys().len() || (pm.classes.keys().len() == pm0.classes.keys().len() + 1 && pm.word_classes@.last() == pm0.classes.keys().len() && same_key(pm.classes.keys().last(), t))
    ensures pm.fresh()
{
    reveal(PhraseMatcher::fresh);
    let e = pm.expression;
    let n = e.n() as int;
    assert(pm.classes.keys()[0] == pm0.classes.keys()[0]);
    assert forall|k: int| 0 <= k < pm.classes.keys().len() implies tidy(#[trigger] pm.classes.keys()[k], n, e.fuzz + 1, n) by {
        if k < pm0.classes.keys().len() { assert(pm.classes.keys()[k] == pm0.classes.keys()[k]); } else {
            let u = pm.classes.keys()[k];
            assert forall|s: int, f: int, x: int| 0 <= s < n && 0 <= f < e.fuzz + 1 && #[trigger] isset(at(u, s, f), x) implies x < n by {
                assert(at(u, s, f) == at(t, s, f));
                assert(isset(at(t, s, f), x));
                lemma_range(e, s, w, f, x);
            }
        }
    }
}
/// A word is rejected when nothing is left
proof fn lemma_rejected(e: Expression, a: int, t: BitSet3D, w: Seq<Char>, k: int)
    requires e.correct(t, a, w.take(k)), e.no_rows(t, a), 0 <= k < w.len(), !e.skips(w[k]), a >= 1
    ensures !kept(e, a, w), !finds(e, w)
{
    if live(e, a, w.take(k)) {
        let (s, f, x) = choose|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= e.fuzz && #[trigger] e.reach(s, w.take(k), f)(x);
        assert(has(t, s, f, x));
        let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(t, s, g), x);
        assert(no_bits(at(t, s, g)));
    }
    if finds(e, w) {
        assert(e.reach(0, w, e.fuzz as int)(e.n() - 1));
        assert(live(e, a, w));
        lemma_kept(e, a, w);
    }
}
/// What has been added to the row `f` after all states of the rows before `g`, and those of the row `g` which are not in `left`
pub open spec fn partly(t: BitSet3D, s: Seq<u32>, k: int, f: int, x: int, g: int) -> bool { exists|h: int, d: int| 0 <= h <= f && h < g && #[trigger] isset(rows(s, k, h), d) && isset(at(t, d, f - h), x) }
pub open spec fn partly2(t: BitSet3D, s: Seq<u32>, k: int, f: int, x: int, g: int, it: Ones) -> bool { 0 <= g <= f && exists|d: int| #[trigger] isset(rows(s, k, g), d) && !it.left(d) && isset(at(t, d, f - g), x) }
""")
    m.impl("impl WordClass", {
        "clear": Fn(sig="    ensures final(self).words_count == 0, final(self).min_tranche == 0", rules=[("Default::default()", "WordClass::default()", DEFAULT)]),
        "add_word": Fn(sig="    requires old(self).words_count < usize::MAX\n    ensures final(self).words_count == old(self).words_count + 1, final(self).min_tranche == (if old(self).min_tranche <= word.tranche { old(self).min_tranche } else { word.tranche })",
                       rules=[("self.min_tranche.min(word.tranche)", "min_tranche_of(self.min_tranche, word.tranche)", "library function")]),
    })
    m.text("pub fn min_tranche_of(x: Tranche, y: Tranche) -> (r: Tranche) ensures r == (if x <= y { x } else { y }) { if x <= y { x } else { y } }\n")
    m.text("impl WordClass { #[verifier::external_body] pub fn default() -> (r: WordClass) ensures r.words_count == 0, r.min_tranche == 0 { unimplemented!() } }\n")
    m.impl("impl PhraseMatcher", {
        "new": Fn(sig="""    requires expression.wf()
    ensures r.expression == expression, r.original(), r.ok(), r.classes.keys().len() == 1, no_bits(r.classes.keys()[0].blocks@), r.word_classes@.len() == 0,
        r.fresh()""",
            at=[("let empty_table_src_fuzz_dst", "before", "        proof { assert((states_len, fuzz_limit).total() == n * b); assert(states_len as int == n); }"),
                ("let start_states", "before", "        proof { assert(dims(classes.keys()[0], n, b, n)); lemma_no_rows(expression, classes.keys()[0]); reveal(PhraseMatcher::fresh); }")],
            rules=[("IndexMap::new()", "ClassMap::new()", MAP), ("Default::default()", "WordClass::default()", DEFAULT), ("vec![]", "Vec::new()", "a macro")],
            start="        let ghost n = expression.n() as int; let ghost b = expression.fuzz + 1; proof { usize_64(); reveal(PhraseMatcher::ok); reveal(cached); reveal(classed); assert(n * b <= 16384 * 16384 && 0 <= n * b) by (nonlinear_arith) requires 0 <= n <= 16384, 0 <= b <= 16384; assert((n * b) * blocks_for(n) <= 16384 * 16384 * 513 && 0 <= (n * b) * blocks_for(n)) by (nonlinear_arith) requires 0 <= n * b <= 16384 * 16384, 0 <= blocks_for(n) <= 513; }"),
        "step_by_word_index": Fn(sig="""    requires self.ok(), word_index < self.word_classes@.len(), 0 < self.word_classes@[word_index as int] < self.classes.keys().len(),
        dims_ref(prev_fuzz_dst.blocks@, prev_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int), dims_ref(next_fuzz_dst.cur(), next_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int),
        forall|f: int, x: int| 0 <= f < self.fuzz_limit && #[trigger] isset(rows(prev_fuzz_dst.blocks@, prev_fuzz_dst.size as int, f), x) ==> x < self.states_len
    ensures final(next_fuzz_dst.blocks)@.len() == next_fuzz_dst.cur().len(),
        stepped(self.classes.keys()[self.word_classes@[word_index as int] as int], self.fuzz_limit as int, prev_fuzz_dst.blocks@, prev_fuzz_dst.size as int, next_fuzz_dst.cur(), final(next_fuzz_dst.blocks)@, next_fuzz_dst.size as int)""",
            start="        proof { reveal(PhraseMatcher::ok); }"),
        "has_success_state": Fn(sig="""    requires self.states_len >= 1, dims_ref(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int)
    ensures r == (exists|f: int| 0 <= f < self.fuzz_limit && isset(#[trigger] rows(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, f), self.states_len - 1))""",
            loops=[Loop("""            invariant self.states_len >= 1, dims_ref(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int),
                forall|f2: int| 0 <= f2 < f ==> !isset(#[trigger] rows(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, f2), self.states_len - 1)""",
                start="            proof { lemma_rows_fit(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int, f as int); assert(isset(rows(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, f as int), self.states_len - 1) == isset(rows(table_fuzz_dst.blocks@, table_fuzz_dst.size as int, f as int), self.states_len - 1)); }")]),
        "step": Fn(sig="""    requires self.states_len >= 1, dims(*table_src_fuzz_dst, self.states_len as int, self.fuzz_limit as int, self.states_len as int),
        dims_ref(prev_fuzz_dst.blocks@, prev_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int), dims_ref(next_fuzz_dst.cur(), next_fuzz_dst.size as int, self.fuzz_limit as int, self.states_len as int),
        forall|f: int, x: int| 0 <= f < self.fuzz_limit && #[trigger] isset(rows(prev_fuzz_dst.blocks@, prev_fuzz_dst.size as int, f), x) ==> x < self.states_len
    ensures final(next_fuzz_dst.blocks)@.len() == next_fuzz_dst.cur().len(),
        stepped(*table_src_fuzz_dst, self.fuzz_limit as int, prev_fuzz_dst.blocks@, prev_fuzz_dst.size as int, next_fuzz_dst.cur(), final(next_fuzz_dst.blocks)@, next_fuzz_dst.size as int)""",
            start="        let ghost t = *table_src_fuzz_dst; let ghost n = self.states_len as int; let ghost b = self.fuzz_limit as int; let ghost p = prev_fuzz_dst.blocks@; let ghost k = prev_fuzz_dst.size as int; let ghost u0 = next_fuzz_dst.cur(); let ghost l = next_fuzz_dst.size as int; let ghost fin_ = final(next_fuzz_dst.blocks)@;",
            loops=[Loop("""            invariant n == self.states_len, n >= 1, b == self.fuzz_limit, t == *table_src_fuzz_dst, p == prev_fuzz_dst.blocks@, k == prev_fuzz_dst.size, l == next_fuzz_dst.size, dims(t, n, b, n), dims_ref(p, k, b, n), dims_ref(u0, l, b, n),
                forall|g: int, x: int| 0 <= g < b && #[trigger] isset(rows(p, k, g), x) ==> x < n,
                final(next_fuzz_dst.blocks)@ == fin_, next_fuzz_dst.blocks@.len() == u0.len(),
                forall|g: int, x: int| 0 <= g < b ==> #[trigger] isset(rows(next_fuzz_dst.blocks@, l, g), x) == (isset(rows(u0, l, g), x) || partly(t, p, k, g, x, f as int))""",
                    start="            let ghost u1 = next_fuzz_dst.blocks@; proof { lemma_rows_fit(p, k, b, n, f as int); }",
                    end="""            proof {
                assert forall|g: int, x: int| 0 <= g < b implies #[trigger] isset(rows(next_fuzz_dst.blocks@, l, g), x) == (isset(rows(u0, l, g), x) || partly(t, p, k, g, x, f + 1)) by {
                    assert(isset(rows(u1, l, g), x) == (isset(rows(u0, l, g), x) || partly(t, p, k, g, x, f as int)));
                    if partly(t, p, k, g, x, f + 1) {
                        let (h, d) = choose|h: int, d: int| 0 <= h <= g && h < f + 1 && #[trigger] isset(rows(p, k, h), d) && isset(at(t, d, g - h), x);
                        if h < f { assert(partly(t, p, k, g, x, f as int)); } else { assert(!it_.left(d)); assert(partly2(t, p, k, g, x, f as int, it_)); }
                    }
                }
            }"""),
                   Loop("""                invariant n == self.states_len, n >= 1, b == self.fuzz_limit, t == *table_src_fuzz_dst, p == prev_fuzz_dst.blocks@, k == prev_fuzz_dst.size, l == next_fuzz_dst.size, dims(t, n, b, n), dims_ref(p, k, b, n), dims_ref(u0, l, b, n), f < b,
                    forall|g: int, x: int| 0 <= g < b && #[trigger] isset(rows(p, k, g), x) ==> x < n,
                    final(next_fuzz_dst.blocks)@ == fin_, next_fuzz_dst.blocks@.len() == u0.len(), u1.len() == u0.len(),
                    it_.wf(), forall|d: int| #[trigger] it_.left(d) ==> 0 <= d && isset(rows(p, k, f as int), d),
                    forall|g: int, x: int| 0 <= g < b ==> #[trigger] isset(rows(next_fuzz_dst.blocks@, l, g), x) == (isset(rows(u1, l, g), x) || partly2(t, p, k, g, x, f as int, it_)),
                ensures forall|d: int| !#[trigger] it_.left(d)
                decreases it_.measure()""",
                    start="                let ghost u2 = next_fuzz_dst.blocks@; let ghost d0 = dst as int; proof { assert(isset(rows(p, k, f as int), d0)); }",
                    end="""                proof {
                    assert forall|g: int, x: int| 0 <= g < b implies #[trigger] isset(rows(next_fuzz_dst.blocks@, l, g), x) == (isset(rows(u1, l, g), x) || partly2(t, p, k, g, x, f as int, it_)) by {
                        assert(!it_.left(d0));
                        assert(isset(rows(u2, l, g), x) == isset(rows(u2, l, g), x));
                        if partly2(t, p, k, g, x, f as int, it_) {
                            let d = choose|d: int| #[trigger] isset(rows(p, k, f as int), d) && !it_.left(d) && isset(at(t, d, g - f), x);
                        }
                    }
                }"""),
                   Loop("""                    invariant n == self.states_len, n >= 1, b == self.fuzz_limit, t == *table_src_fuzz_dst, l == next_fuzz_dst.size, dims(t, n, b, n), dims_ref(u0, l, b, n), f < b, f + df <= b, dst == d0, 0 <= d0 < n,
                        final(next_fuzz_dst.blocks)@ == fin_, next_fuzz_dst.blocks@.len() == u0.len(), u2.len() == u0.len(),
                        forall|g: int, x: int| 0 <= g < b ==> #[trigger] isset(rows(next_fuzz_dst.blocks@, l, g), x) == (isset(rows(u2, l, g), x) || (f <= g < f + df && isset(at(t, d0, g - f), x))),
                    decreases b - f - df""",
                    start="                    let ghost u3 = next_fuzz_dst.blocks@; proof { lemma_rows_fit(u3, l, b, n, f + df); lemma_row(t, n, b, n, d0, df as int); }",
                    end="""                    proof {
                        lemma_rows_spliced(u3, next_fuzz_dst.blocks@, l, b, n, f + df - 1);
                    }""")],
            ),
        "insert_word_table": Fn(sig="""    requires old(self).ok(), old(self).word_classes@.len() < usize::MAX, old(self).classes.keys().len() < usize::MAX, dims(*table_src_fuzz_dst, old(self).states_len as int, old(self).fuzz_limit as int, old(self).states_len as int)
    ensures final(self).ok(), final(self).expression == old(self).expression, final(self).states_len == old(self).states_len, final(self).fuzz_limit == old(self).fuzz_limit, final(self).start_states == old(self).start_states,
        final(self).word_classes@.len() == old(self).word_classes@.len() + 1, final(self).word_classes@.drop_last() == old(self).word_classes@,
        final(self).word_classes@.last() < final(self).classes.keys().len(), same_key(final(self).classes.keys()[final(self).word_classes@.last() as int], *table_src_fuzz_dst),
        old(self).classes.keys().is_prefix_of(final(self).classes.keys()), final(self).classes.keys().len() <= old(self).classes.keys().len() + 1, final(self).classes.keys().len() == old(self).classes.keys().len() || final(self).word_classes@.last() == old(self).classes.keys().len()""",
            rules=[("use indexmap::map::Entry;", "", MAP)],
            start="        let ghost map0 = self.classes; let ghost wc0 = self.word_classes@; proof { reveal(PhraseMatcher::ok); }",
            ),
    })
    m.impl("impl<'word> WordMatcher<'word>", {
        "new": Fn(sig="""    requires expression.wf(), max_word_len >= 1
    ensures r.phrase_matcher.expression == expression, forall|a: int| 1 <= a <= expression.n() ==> #[trigger] r.inv(a), r.word_index == 0, r.alive_wordlist@.len() == 0, r.table_char_src_fuzz_dst@.len() == max_word_len""",
            rules=[("vec![$x; $n]", "tables_new($x, $n)", "allocation is done by a wrapper with an assumed contract"), ("vec![]", "Vec::new()", "a macro")],
            start="        let ghost n = expression.n() as int; let ghost b = expression.fuzz + 1; proof { usize_64(); reveal(PhraseMatcher::ok); reveal(cached); reveal(classed); assert(n * b <= 16384 * 16384 && 0 <= n * b) by (nonlinear_arith) requires 0 <= n <= 16384, 0 <= b <= 16384; assert((n * b) * blocks_for(n) <= 16384 * 16384 * 513 && 0 <= (n * b) * blocks_for(n)) by (nonlinear_arith) requires 0 <= n * b <= 16384 * 16384, 0 <= blocks_for(n) <= 513; }"),
        "iter": Fn(sig="    ensures *r.word_matcher == *old(self), *final(r.word_matcher) == *final(self), r.wordlist == wordlist, r.single_word_only == single_word_only, r.deadline == deadline"),
        "expression": Fn(sig="    ensures *r == self.phrase_matcher.expression"),
        "next_single_word": Fn(attrs="#[verifier::rlimit(200)] #[verifier::spinoff_prover]", sig="""    requires old(self).ready(wordlist.words(), single_word_only)
    ensures
        final(clock_).now() >= old(clock_).now(), final(self).ready(wordlist.words(), single_word_only),
        old(self).advanced(*final(self), wordlist.words(), single_word_only), old(self).found(*final(self), wordlist.words(), r),
        r is None ==> final(self).word_index == wordlist.words().len() || past(*final(clock_), deadline)""",
            rules=[("deadline.is_some() && Some(Instant::now()) > deadline", "late(deadline, clock_)", CLOCK), ("deadline: Option<Instant>,", "deadline: Option<Instant>, clock_: &mut Clock,", TIME),
                   ("let fuzz_range = 0..$e;", "let fuzz_limit_ = $e;", "a range is written out where it is used"), ("fuzz_range.clone()", "0..fuzz_limit_", "a range is written out where it is used"),
                   ("&word.chars[$x..]", "vstd::slice::slice_subrange(word.chars.as_slice(), $x, word.chars.len())", SUB),
                   ("&mut self.table_char_src_fuzz_dst[prefix_len..]", "tables_from(&mut self.table_char_src_fuzz_dst, prefix_len)", SUB),
                   ("&word.chars[0..$x]", "vstd::slice::slice_subrange(word.chars.as_slice(), 0, $x)", SUB)],
            start="""        let ghost e = self.phrase_matcher.expression; let ghost a = e.starts(single_word_only); let ghost ws = wordlist.words(); let ghost idx0 = self.word_index as int; let ghost alive0 = self.alive_wordlist@;
        let ghost keep_ = |w: &'word Word| kept(e, a, w.chars@); let ghost n = e.n() as int; let ghost b = e.fuzz + 1;
        proof { reveal(none_found); assert(ws.subrange(idx0, idx0) =~= Seq::<&'word Word>::empty()); assert(Seq::<&'word Word>::empty().filter(keep_) =~= Seq::<&'word Word>::empty()) by { reveal(Seq::filter); } assert(alive0 + Seq::<&'word Word>::empty() =~= alive0); }""",
            loops=[Loop("""            invariant e == self.phrase_matcher.expression, e == old(self).phrase_matcher.expression, alive0 == old(self).alive_wordlist@, idx0 == old(self).word_index, 0 <= idx0, a == e.starts(single_word_only), ws == wordlist.words(), n == e.n(), b == e.fuzz + 1, states_len == n, fuzz_limit_ == b,
                idx0 <= self.word_index <= ws.len(), deadline_check_count == self.word_index - idx0, self.inv(a), self.fits(ws), clock_.now() >= old(clock_).now(), self.table_char_src_fuzz_dst@.len() == old(self).table_char_src_fuzz_dst@.len(),
                keep_ == (|w: &'word Word| kept(e, a, w.chars@)),
                self.alive_wordlist@ == alive0 + ws.subrange(idx0, self.word_index as int).filter(keep_),
                none_found(e, ws, idx0, self.word_index as int),
            decreases ws.len() - self.word_index"""),
                   Loop("""                invariant prefix_len <= word_len == word.chars@.len(), prefix_len <= self.table_chars@.len(), word.chars@.take(prefix_len as int) == self.table_chars@.take(prefix_len as int),
                decreases word_len - prefix_len"""),
                   Loop("""                    invariant e == self.phrase_matcher.expression, e.wf(), states_len == n, n == e.n(), b == e.fuzz + 1, pt_.len() >= 1, prefixed_table@.len() == pt_.len(), final(prefixed_table)@ == ptf_,
                        forall|j: int| 1 <= j < pt_.len() ==> #[trigger] prefixed_table@[j] == pt_[j], e.table(prefixed_table@[0]), initial(e, prefixed_table@[0], src as int)""",
                        start="""                    let ghost t_ = prefixed_table@[0]; proof { lemma_row(t_, n, b, n, src as int, 0); assert(state_wf(e.states@[src as int], e.n())); }""",
                        end="""                    proof { lemma_initial_step(e, t_, prefixed_table@[0], src as int); }"""),
                   Loop("""                invariant e == self.phrase_matcher.expression, e.wf(), n == e.n(), b == e.fuzz + 1, fuzz_limit_ == b, success_state == n - 1, *word_table_src_fuzz_dst == t1, e.table(t1), forall|g: int| 0 <= g < f ==> !isset(#[trigger] at(t1, 0, g), n - 1),
                    e == old(self).phrase_matcher.expression, alive0 == old(self).alive_wordlist@, idx0 == old(self).word_index, a == e.starts(single_word_only), ws == wordlist.words(), self.inv(a), self.fits(ws),
                    0 <= idx0 <= i0, self.word_index == i0 + 1, i0 < ws.len(), word == ws[i0], e.correct(t1, a, w), w == word.chars@, keep_ == (|w: &'word Word| kept(e, a, w.chars@)), states_len == n,
                    self.alive_wordlist@ == alive0 + ws.subrange(idx0, i0 + 1).filter(keep_), none_found(e, ws, idx0, i0), clock_.now() >= old(clock_).now(), self.table_char_src_fuzz_dst@.len() == old(self).table_char_src_fuzz_dst@.len()""",
                        start="""                proof { lemma_row(t1, n, b, n, 0, f as int); }""", after="            proof { lemma_finds(e, t1, a, w); lemma_none_found(e, ws, idx0, i0); }")],
            at=[("let word = wordlist.borrow(self.word_index);", "after", "            let ghost i0 = self.word_index as int; let ghost w = word.chars@; let ghost p0 = self.table_chars@; let ghost ts0 = self.table_char_src_fuzz_dst@; let ghost pm0 = self.phrase_matcher; let ghost al0 = self.alive_wordlist@;\n            proof { assert(ws.subrange(idx0, i0 + 1) =~= ws.subrange(idx0, i0).push(ws[i0])); lemma_filter_push(ws.subrange(idx0, i0), ws[i0], keep_); assert(e.wf() && a >= 1 && a <= n); assert(good(w) && w.len() < ts0.len()); }"),
                ("return Some(word);", "before", "                    proof { assert(isset(at(t1, 0, f as int), e.n() - 1)); lemma_finds(e, t1, a, w); }"),
                ("let prefixed_table = $a;", "after", "            let ghost p = prefix_len as int; let ghost pt_ = prefixed_table@; let ghost ptf_ = final(prefixed_table)@; let ghost chars_ = prefixed_chars@;\n            proof { assert(chars_ =~= w.skip(p)); }"),
                ("prefixed_table[0].borrow_mut().clear();", "after", "                proof { assert(e.table(ts0[0])); assert(e.table(prefixed_table@[0])); lemma_cleared(e, prefixed_table@[0]); }"),
                ("let partial_len", "before", """            let ghost pt2 = prefixed_table@;
            proof {
                if p == 0 { lemma_initial(e, pt2[0], a, w.take(0)); } else { assert(pt2[0] == ts0[p]); lemma_cached(e, a, ts0, p0, p); }
                assert forall|j: int| 0 <= j < pt2.len() implies #[trigger] e.table(pt2[j]) by { if j > 0 { assert(pt2[j] == pt_[j]); assert(pt_[j] == ts0[p + j]); assert(e.table(ts0[p + j])); } else if p > 0 { assert(e.table(ts0[p])); } }
                assert forall|j: int| 0 <= j < chars_.len() implies (#[trigger] chars_[j]).wf() by { assert(w[p + j].wf()); }
            }"""),
                ("self.table_chars = ", "before", """            let ghost ts1 = self.table_char_src_fuzz_dst@; let ghost r_ = partial_len - p; let ghost tail = ts1.skip(p);
            proof {
                assert(ts1 =~= ts0.take(p) + tail);
                lemma_refill(e, a, ts0, ts1, p0, w, p, pt2[0], tail, r_);
                assert forall|j: int| 0 <= j < ts1.len() implies #[trigger] e.table(ts1[j]) by { if j < p { assert(ts1[j] == ts0[j]); assert(e.table(ts0[j])); } else { assert(ts1[j] == tail[j - p]); } }
                if partial_len < word_len { assert(w.skip(p)[r_] == w[partial_len as int]); lemma_rejected(e, a, ts1[partial_len as int], w, partial_len as int); lemma_none_found(e, ws, idx0, i0); } else { assert(w.take(partial_len as int) =~= w); }
            }"""),
                ("self.phrase_matcher.insert_word_table($a);", "before", """            let ghost t1 = ts1[word_len as int]; proof { assert(e.table(ts1[word_len as int])); assert(*word_table_src_fuzz_dst == t1); }
"""),
                ("self.phrase_matcher.insert_word_table($a);", "after", """
            proof {
                let pm = self.phrase_matcher;
                lemma_classed(e, a, pm0, pm, al0, word, t1); if a == e.n() { lemma_fresh(pm0, pm, w, t1); }
                lemma_finds(e, t1, a, w);
                assert(self.alive_wordlist@ =~= alive0 + ws.subrange(idx0, i0 + 1).filter(keep_));
                assert(self.inv(a));
            }"""),
                ],
            ),
    })
    m.impl("impl<'word> Iterator for WordMatcherIter<'word, '_>", {
        "next": Fn(vis=None, sig="""    requires old(self).deadline is None, old(self).word_matcher.ready(old(self).wordlist@, old(self).single_word_only)
    ensures
        final(self).wordlist == old(self).wordlist, final(self).single_word_only == old(self).single_word_only, final(self).deadline is None, *final(final(self).word_matcher) == *final(old(self).word_matcher),
        final(self).word_matcher.ready(old(self).wordlist@, old(self).single_word_only),
        old(self).word_matcher.advanced(*final(self).word_matcher, old(self).wordlist@, old(self).single_word_only),
        old(self).word_matcher.found(*final(self).word_matcher, old(self).wordlist@, r),
        r is None ==> final(self).word_matcher.word_index == old(self).wordlist@.len()""",
            rules=[("next_single_word($a, $b, $c)", "next_single_word($a, $b, $c, &mut Clock::any())", TIME)]),
    }, new_header="impl<'word, 'it> WordMatcherIter<'word, 'it>")
    return m
