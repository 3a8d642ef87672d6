"""The matchers are simplified for each other's words, until nothing changes"""
from build import Module
from extract import Fn, Loop

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
EACH = "a `for` loop over references is written out as a `while` loop over the indexes"
LIB = "a function of the library is a wrapper with an assumed contract"
ASSERT = "an assertion becomes a proof obligation"


def module():
    m = Module("converge", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::optimize::transitive;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::tranches::*;
use super::narrow::*;
use super::query::*;
use super::prepare::*;

// ---- what is left, and the phrases

/// A phrase that all of the patterns match, of the words `ws`
pub open spec fn phrase(es: Seq<Expression>, ws: Seq<&Word>, limit: int, c: Seq<int>) -> bool { within(c, ws.len() as int) && 2 <= c.len() <= limit && all_find(es, text(ws, c)) }
/// The words `al` are some of `ws` (`m` tells which ones), among them all words of those phrases
#[verifier::opaque]
pub open spec fn traced(es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, m: Seq<int>) -> bool {
    chosen(ws, al, m) && forall|c: Seq<int>, i: int| #[trigger] phrase(es, ws, limit, c) && 0 <= i < c.len() ==> m.contains(#[trigger] c[i])
}
/// Each of those phrases belongs to a phase
#[verifier::opaque]
pub open spec fn queued(es: Seq<Expression>, ws: Seq<&Word>, limit: int, q: Seq<SearchPhase>) -> bool {
    &&& distinct(q) && forall|i: int| 0 <= i < q.len() ==> 2 <= (#[trigger] q[i]).depth <= limit
    &&& forall|c: Seq<int>| #[trigger] phrase(es, ws, limit, c) ==> listed(q, c.len() as int, rarest(ws, c))
}
/// The matchers tell which phrases are matched
#[verifier::opaque]
pub open spec fn able(ms: Seq<WordMatcher>, al: Seq<&Word>, q: Seq<SearchPhase>) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).phrase_matcher.ok() && ms[i].phrase_matcher.tidy() && embedded(ms[i].alive_wordlist@, al)
    &&& forall|i: int, d: int| 0 <= i < ms.len() && deepest(q, d) ==> #[trigger] ms[i].tight(d)
}
/// Every number of words is listed with the classes of all words
#[verifier::opaque]
pub open spec fn level(al: Seq<&Word>, q: Seq<SearchPhase>) -> bool { forall|i: int, w: int| 0 <= i < q.len() && 0 <= w < al.len() ==> listed(q, (#[trigger] q[i]).depth as int, #[trigger] tranche_of(al, w)) }
pub open spec fn preparing(ms: Seq<WordMatcher>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, q: Seq<SearchPhase>) -> bool {
    patterns(ms) == es && able(ms, al, q) && (exists|m: Seq<int>| #[trigger] traced(es, ws, limit, al, m)) && queued(es, ws, limit, q) && level(al, q)
}
/// All of the matchers have the words `al`, and no word leads nowhere
#[verifier::opaque]
pub open spec fn agreed(ms: Seq<WordMatcher>, al: Seq<&Word>, lo: int) -> bool { forall|i: int| lo <= i < ms.len() ==> (#[trigger] ms[i]).named() && ms[i].alive_wordlist@.len() == al.len() }
#[verifier::opaque]
pub open spec fn all_named(ms: Seq<WordMatcher>, lo: int) -> bool { forall|i: int| lo <= i < ms.len() ==> (#[trigger] ms[i]).named() }
pub open spec fn size(ms: Seq<WordMatcher>) -> int
    decreases ms.len()
{
    if ms.len() == 0 { 0 } else { size(ms.drop_last()) + ms.last().phrase_matcher.states_len + ms.last().alive_wordlist@.len() }
}
proof fn lemma_size(ms: Seq<WordMatcher>, i: int, s: WordMatcher)
    requires 0 <= i < ms.len()
    ensures size(ms.update(i, s)) == size(ms) - ms[i].phrase_matcher.states_len - ms[i].alive_wordlist@.len() + s.phrase_matcher.states_len + s.alive_wordlist@.len(), size(ms) >= 0
    decreases ms.len()
{
    let (x, y) = (ms.drop_last(), ms.update(i, s));
    if i < ms.len() - 1 { lemma_size(x, i, s); assert(y.drop_last() =~= x.update(i, s)); } else { assert(y.drop_last() =~= x); lemma_size_positive(x); }
    lemma_size_positive(ms);
}
proof fn lemma_size_positive(ms: Seq<WordMatcher>)
    ensures size(ms) >= 0
    decreases ms.len()
{ if ms.len() > 0 { lemma_size_positive(ms.drop_last()); } }
proof fn lemma_rarest_comp(al: Seq<&Word>, al2: Seq<&Word>, m: Seq<int>, c: Seq<int>)
    requires chosen(al, al2, m), within(c, al2.len() as int)
    ensures rarest(al2, c) == rarest(al, comp(c, m))
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < al2.len() by { assert(d[i] == c[i]); }
        lemma_rarest_comp(al, al2, m, d);
        assert(comp(c, m).drop_last() =~= comp(d, m));
        assert(0 <= c[c.len() - 1] < al2.len());
        let t = c.last();
        assert(same_word(al[m[t]], al2[t]));
    }
}
/// A phrase of the words `al2` is one of the words `al`
pub proof fn lemma_phrase_of(al: Seq<&Word>, al2: Seq<&Word>, m: Seq<int>, c: Seq<int>)
    requires chosen(al, al2, m), within(c, al2.len() as int)
    ensures within(comp(c, m), al.len() as int), comp(c, m).len() == c.len(), text(al2, c) == text(al, comp(c, m)), rarest(al2, c) == rarest(al, comp(c, m))
{
    assert forall|j: int| 0 <= j < m.len() implies al[#[trigger] m[j]].chars@ == al2[j].chars@ by { assert(same_word(al[m[j]], al2[j])); }
    lemma_text(al, al2, m, c);
    lemma_within(c, m, al2.len() as int, al.len() as int);
    lemma_rarest_comp(al, al2, m, c);
}
/// A phrase that is matched is one of the words that are left
pub proof fn lemma_traced(es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, m: Seq<int>, c: Seq<int>) -> (r: Seq<int>)
    requires traced(es, ws, limit, al, m), phrase(es, ws, limit, c)
    ensures within(r, al.len() as int), c == comp(r, m), r.len() == c.len(), text(al, r) == text(ws, c), rarest(al, r) == rarest(ws, c), al.len() > 0
{
    reveal(traced);
    assert forall|i: int| 0 <= i < c.len() implies m.contains(#[trigger] c[i]) by {}
    let r = lemma_uncomp(c, m);
    lemma_phrase_of(ws, al, m, r);
    assert(0 <= r[0] < al.len());
    r
}
proof fn lemma_tight_less(s: WordMatcher, d: int, e: int)
    requires s.tight(d), e <= d
    ensures s.tight(e)
{
    reveal(WordMatcher::tight); reveal(PhraseMatcher::speaks);
}
proof fn lemma_chosen_again(xs: Seq<&Word>, ys: Seq<&Word>, zs: Seq<&Word>, g: Seq<int>, h: Seq<int>)
    requires chosen(xs, ys, g), chosen(ys, zs, h)
    ensures chosen(xs, zs, comp(h, g))
{
    lemma_into_comp(h, g, xs.len() as int);
    assert forall|t: int| 0 <= t < zs.len() implies same_word(xs[comp(h, g)[t]], #[trigger] zs[t]) by { assert(same_word(ys[h[t]], zs[t])); assert(0 <= h[t] < ys.len()); assert(same_word(xs[g[h[t]]], ys[h[t]])); }
}
proof fn lemma_embedded_again(xs: Seq<&Word>, ys: Seq<&Word>, zs: Seq<&Word>)
    requires embedded(xs, ys), embedded(ys, zs)
    ensures embedded(xs, zs)
{
    reveal(embedded);
    let g = choose|g: Seq<int>| chosen(xs, ys, g);
    let h = choose|h: Seq<int>| chosen(ys, zs, h);
    lemma_chosen_again(xs, ys, zs, g, h);
}
proof fn lemma_embedded_self(xs: Seq<&Word>)
    ensures embedded(xs, xs)
{
    reveal(embedded);
    let g = Seq::new(xs.len(), |i: int| i);
    assert(chosen(xs, xs, g));
}
proof fn lemma_rising_all(g: Seq<int>, i: int)
    requires into(g, g.len() as int), 0 <= i < g.len()
    ensures g[i] == i
{
    lemma_rising_lower(g, i);
    lemma_rising_upper(g, i);
}
proof fn lemma_rising_lower(g: Seq<int>, i: int)
    requires into(g, g.len() as int), 0 <= i < g.len()
    ensures g[i] >= i
    decreases i
{ if i > 0 { lemma_rising_lower(g, i - 1); assert(g[i - 1] < g[i]); } else { assert(0 <= g[0]); } }
proof fn lemma_rising_upper(g: Seq<int>, i: int)
    requires into(g, g.len() as int), 0 <= i < g.len()
    ensures g[i] <= i
    decreases g.len() - i
{ if i < g.len() - 1 { lemma_rising_upper(g, i + 1); assert(g[i] < g[i + 1]); } else { assert(g[i] < g.len()); } }
/// As many words are the same words
pub proof fn lemma_same_words(xs: Seq<&Word>, ys: Seq<&Word>)
    requires embedded(xs, ys), xs.len() == ys.len()
    ensures forall|i: int| 0 <= i < xs.len() ==> same_word(#[trigger] xs[i], ys[i]), embedded(ys, xs)
{
    reveal(embedded);
    let g = choose|g: Seq<int>| chosen(xs, ys, g);
    assert forall|i: int| 0 <= i < xs.len() implies same_word(#[trigger] xs[i], ys[i]) by { lemma_rising_all(g, i); assert(same_word(xs[g[i]], ys[i])); }
    let h = Seq::new(xs.len(), |i: int| i);
    assert forall|t: int| 0 <= t < xs.len() implies same_word(ys[h[t]], #[trigger] xs[t]) by { assert(same_word(xs[t], ys[t])); }
    assert(chosen(ys, xs, h));
}

// ---- the phases that no matcher can have

pub proof fn lemma_filter(q: Seq<SearchPhase>, p: spec_fn(SearchPhase) -> bool)
    ensures q.filter(p).len() <= q.len(), q.filter(p).len() == q.len() ==> q.filter(p) == q,
        forall|i: int| 0 <= i < q.filter(p).len() ==> q.contains(#[trigger] q.filter(p)[i]) && p(q.filter(p)[i]), forall|x: SearchPhase| q.contains(x) && p(x) ==> #[trigger] q.filter(p).contains(x),
        distinct(q) ==> distinct(q.filter(p))
    decreases q.len()
{
    reveal(Seq::filter);
    if q.len() == 0 { assert(q.filter(p) =~= q); } else {
        let (q1, l) = (q.drop_last(), q.last());
        let (r1, r) = (q1.filter(p), q.filter(p));
        assert(q =~= q1.push(l));
        lemma_filter(q1, p);
        lemma_filter_push(q1, l, p);
        assert forall|i: int| 0 <= i < r.len() implies q.contains(#[trigger] r[i]) && p(r[i]) by {
            if i < r1.len() { assert(r[i] == r1[i]); assert(q1.contains(r1[i])); let j = choose|j: int| 0 <= j < q1.len() && q1[j] == r1[i]; assert(q[j] == r[i]); } else { assert(q[q.len() - 1] == r[i]); }
        }
        assert forall|x: SearchPhase| q.contains(x) && p(x) implies #[trigger] r.contains(x) by {
            let j = choose|j: int| 0 <= j < q.len() && q[j] == x;
            if j < q1.len() { assert(q1[j] == x); assert(q1.contains(x)); assert(r1.contains(x)); let i = choose|i: int| 0 <= i < r1.len() && r1[i] == x; assert(r[i] == x); } else { assert(r[r.len() - 1] == x); }
        }
        if distinct(q) {
            assert(distinct(q1)) by { assert forall|i: int, j: int| 0 <= i < j < q1.len() implies #[trigger] q1[i].depth != (#[trigger] q1[j]).depth || q1[i].tranche != q1[j].tranche by { assert(q[i].depth != q[j].depth || q[i].tranche != q[j].tranche); } }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i].depth != (#[trigger] r[j]).depth || r[i].tranche != r[j].tranche by {
                if j < r1.len() { assert(r1[i].depth != r1[j].depth || r1[i].tranche != r1[j].tranche); }
                else { assert(q1.contains(r1[i])); let k = choose|k: int| 0 <= k < q1.len() && q1[k] == r1[i]; assert(q[k].depth != q[q.len() - 1].depth || q[k].tranche != q[q.len() - 1].tranche); }
            }
        }
        if r.len() == q.len() { assert(r1.len() == q1.len()); assert(r =~= q); }
    }
}
/// A phrase that is matched is in a phase that is possible
proof fn lemma_possible(s: WordMatcher, al: Seq<&Word>, d: int, p: SearchPhase, r: Seq<int>)
    requires s.tight(d), s.phrase_matcher.ok(), embedded(s.alive_wordlist@, al), belongs(al, p, r), 1 <= r.len() <= d, finds(s.phrase_matcher.expression, text(al, r))
    ensures s.phrase_matcher.passes(p)
{
    reveal(embedded); reveal(WordMatcher::tight); reveal(PhraseMatcher::speaks);
    let (pm, sl) = (s.phrase_matcher, s.alive_wordlist@);
    let g = choose|g: Seq<int>| chosen(sl, al, g);
    let c = comp(r, g);
    lemma_phrase_of(sl, al, g, r);
    assert(0 <= c[0] < sl.len());
    assert(pm.accepts(c));
    assert forall|i: int| 0 <= i < sl.len() implies 0 <= #[trigger] pm.word_classes@[i] < pm.classes.keys().len() && pm.classes.values()[pm.word_classes@[i] as int].min_tranche <= sl[i].tranche by { reveal(PhraseMatcher::ok); }
    lemma_passes(pm, sl, p, c);
}
proof fn lemma_less_deep(q: Seq<SearchPhase>, q2: Seq<SearchPhase>, d: int)
    requires deepest(q2, d), forall|i: int| 0 <= i < q2.len() ==> q.contains(#[trigger] q2[i])
    ensures deepest(q, deepest_of(q)), d <= deepest_of(q)
{
    let i = choose|i: int| 0 <= i < q2.len() && (#[trigger] q2[i]).depth == d;
    assert(q.contains(q2[i]));
    let j = choose|j: int| 0 <= j < q.len() && q[j] == q2[i];
    lemma_deepest(q);
    assert(q[j].depth <= deepest_of(q));
}
/// All classes of words are possible, or none
proof fn lemma_spread_same(pm: PhraseMatcher, t: int, u: int, w: int, f: int, x: int)
    requires pm.ok(), pm.spread(t, w)(f, x), u >= 0
    ensures pm.spread(u, w)(f, x)
    decreases w
{
    if w > 0 {
        let (r, r2) = (pm.spread(t, w - 1), pm.spread(u, w - 1));
        let k = choose|k: int| 0 <= k < pm.classes.keys().len() && pm.classes.values()[k].min_tranche <= t && leads(#[trigger] pm.classes.keys()[k], r, f, x);
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] r(g, d) && isset(at(pm.classes.keys()[k], d, f - g), x);
        lemma_spread_same(pm, t, u, w - 1, g, d);
        assert(r2(g, d));
        assert(leads(pm.classes.keys()[k], r2, f, x));
        assert(pm.classes.values()[k].min_tranche == 0) by { reveal(PhraseMatcher::ok); }
    }
}
proof fn lemma_passes_same(pm: PhraseMatcher, p: SearchPhase, x: SearchPhase)
    requires pm.ok(), p.depth == x.depth, pm.passes(p)
    ensures pm.passes(x)
{
    let f = choose|f: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.spread(p.tranche as int, p.depth as int)(f, pm.states_len - 1);
    lemma_spread_same(pm, p.tranche as int, x.tranche as int, p.depth as int, f, pm.states_len - 1);
}
proof fn lemma_level_filter(pm: PhraseMatcher, al: Seq<&Word>, q: Seq<SearchPhase>)
    requires pm.ok(), level(al, q)
    ensures level(al, q.filter(pm.passing()))
{
    reveal(level);
    let p = pm.passing();
    let q2 = q.filter(p);
    lemma_filter(q, p);
    assert forall|i: int, w: int| 0 <= i < q2.len() && 0 <= w < al.len() implies listed(q2, (#[trigger] q2[i]).depth as int, #[trigger] tranche_of(al, w)) by {
        let (d, t) = (q2[i].depth as int, tranche_of(al, w));
        assert(q.contains(q2[i]) && p(q2[i]));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == q2[i];
        assert(listed(q, q[j].depth as int, t));
        let k = choose|k: int| 0 <= k < q.len() && #[trigger] is_phase(q[k], d, t);
        lemma_passes_same(pm, q2[i], q[k]);
        assert(q.contains(q[k]));
        assert(q2.contains(q[k]));
        let l = choose|l: int| 0 <= l < q2.len() && q2[l] == q[k];
        assert(is_phase(q2[l], d, t));
    }
}
proof fn lemma_level_less(al: Seq<&Word>, al1: Seq<&Word>, q: Seq<SearchPhase>)
    requires embedded(al, al1), level(al, q)
    ensures level(al1, q)
{
    reveal(embedded); reveal(level);
    let g = choose|g: Seq<int>| chosen(al, al1, g);
    assert forall|i: int, w: int| 0 <= i < q.len() && 0 <= w < al1.len() implies listed(q, (#[trigger] q[i]).depth as int, #[trigger] tranche_of(al1, w)) by { assert(same_word(al[g[w]], al1[w])); assert(0 <= g[w] < al.len()); assert(tranche_of(al, g[w]) == tranche_of(al1, w)); }
}
pub proof fn lemma_filtered(ms: Seq<WordMatcher>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, q: Seq<SearchPhase>, i: int)
    requires preparing(ms, es, ws, limit, al, q), 0 <= i < ms.len()
    ensures preparing(ms, es, ws, limit, al, q.filter(ms[i].phrase_matcher.passing())), q.filter(ms[i].phrase_matcher.passing()).len() <= q.len(), q.filter(ms[i].phrase_matcher.passing()).len() == q.len() ==> q.filter(ms[i].phrase_matcher.passing()) == q
{
    let (s, p) = (ms[i], ms[i].phrase_matcher.passing());
    let q2 = q.filter(p);
    lemma_filter(q, p);
    lemma_useful(ms, al, q, i);
    lemma_level_filter(s.phrase_matcher, al, q);
    assert(able(ms, al, q2)) by {
        reveal(able);
        assert forall|j: int, d: int| 0 <= j < ms.len() && deepest(q2, d) implies #[trigger] ms[j].tight(d) by { lemma_less_deep(q, q2, d); lemma_tight_less(ms[j], deepest_of(q), d); }
    }
    let m = choose|m: Seq<int>| #[trigger] traced(es, ws, limit, al, m);
    assert(queued(es, ws, limit, q2)) by {
        reveal(queued); reveal(able);
        assert forall|k: int| 0 <= k < q2.len() implies 2 <= (#[trigger] q2[k]).depth <= limit by { assert(q.contains(q2[k])); let j = choose|j: int| 0 <= j < q.len() && q[j] == q2[k]; assert(2 <= q[j].depth <= limit); }
        assert forall|c: Seq<int>| #[trigger] phrase(es, ws, limit, c) implies listed(q2, c.len() as int, rarest(ws, c)) by {
            assert(listed(q, c.len() as int, rarest(ws, c)));
            let k = choose|k: int| 0 <= k < q.len() && #[trigger] is_phase(q[k], c.len() as int, rarest(ws, c));
            let r = lemma_traced(es, ws, limit, al, m, c);
            lemma_deepest(q);
            assert(q[k].depth <= deepest_of(q));
            assert(es[i] == s.phrase_matcher.expression);
            assert(finds(es[i], text(ws, c))) by { reveal(all_find); }
            lemma_possible(s, al, deepest_of(q), q[k], r);
            assert(q.contains(q[k]) && p(q[k]));
            assert(q2.contains(q[k]));
            let j = choose|j: int| 0 <= j < q2.len() && q2[j] == q[k];
            assert(is_phase(q2[j], c.len() as int, rarest(ws, c)));
        }
    }
}

// ---- the words that no matcher can have

proof fn lemma_traced_less(es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, q: Seq<SearchPhase>, m: Seq<int>, s: WordMatcher, m1: Seq<int>, i: int, d: int)
    requires traced(es, ws, limit, al, m), queued(es, ws, limit, q), deepest(q, d), s.enough(al, m1, d), 0 <= i < es.len(), s.phrase_matcher.expression == es[i]
    ensures traced(es, ws, limit, s.alive_wordlist@, comp(m1, m)), chosen(al, s.alive_wordlist@, m1)
{
    let al1 = s.alive_wordlist@;
    let mm = comp(m1, m);
    assert(chosen(al, al1, m1)) by { reveal(WordMatcher::enough); assert forall|t: int| 0 <= t < al1.len() implies same_word(al[m1[t]], #[trigger] al1[t]) by { assert(same_word(al[m1[t]], al1[t])); } }
    assert(chosen(ws, al, m)) by { reveal(traced); }
    lemma_chosen_again(ws, al, al1, m, m1);
    assert forall|c: Seq<int>, j: int| #[trigger] phrase(es, ws, limit, c) && 0 <= j < c.len() implies mm.contains(#[trigger] c[j]) by {
        let r = lemma_traced(es, ws, limit, al, m, c);
        assert(listed(q, c.len() as int, rarest(ws, c))) by { reveal(queued); }
        let k = choose|k: int| 0 <= k < q.len() && #[trigger] is_phase(q[k], c.len() as int, rarest(ws, c));
        assert(q[k].depth <= d);
        assert(finds(es[i], text(ws, c))) by { reveal(all_find); }
        assert(m1.contains(r[j])) by { reveal(WordMatcher::enough); }
        let t = choose|t: int| 0 <= t < m1.len() && m1[t] == r[j];
        assert(mm[t] == m[r[j]] && c[j] == m[r[j]]);
    }
    assert(traced(es, ws, limit, al1, mm)) by { reveal(traced); }
}
pub proof fn lemma_optimized(ms: Seq<WordMatcher>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, q: Seq<SearchPhase>, i: int, s: WordMatcher)
    requires preparing(ms, es, ws, limit, al, q), 0 <= i < ms.len(), q.len() > 0, s.phrase_matcher.ok(), s.phrase_matcher.tidy(), s.phrase_matcher.expression == ms[i].phrase_matcher.expression,
        s.tight(deepest_of(q)), exists|m: Seq<int>| #[trigger] s.enough(al, m, deepest_of(q))
    ensures s.alive_wordlist@.len() <= al.len() <= ms[i].alive_wordlist@.len(), preparing(ms.update(i, s), es, ws, limit, s.alive_wordlist@, q), s.alive_wordlist@.len() == al.len() ==> preparing(ms.update(i, s), es, ws, limit, al, q)
{
    let (d, al1, ms1) = (deepest_of(q), s.alive_wordlist@, ms.update(i, s));
    lemma_deepest(q);
    assert(s.tight(d));
    let m1 = choose|m: Seq<int>| #[trigger] s.enough(al, m, d);
    let m = choose|m: Seq<int>| #[trigger] traced(es, ws, limit, al, m);
    assert(es[i] == s.phrase_matcher.expression);
    lemma_traced_less(es, ws, limit, al, q, m, s, m1, i, d);
    lemma_embedded(s, al, m1, d);
    lemma_embedded_len(al, al1);
    lemma_level_less(al, al1, q);
    assert(embedded(ms[i].alive_wordlist@, al)) by { reveal(able); }
    lemma_embedded_len(ms[i].alive_wordlist@, al);
    assert(patterns(ms1) =~= es);
    assert(able(ms1, al1, q)) by {
        reveal(able);
        assert forall|j: int| 0 <= j < ms1.len() implies (#[trigger] ms1[j]).phrase_matcher.ok() && ms1[j].phrase_matcher.tidy() && embedded(ms1[j].alive_wordlist@, al1) by {
            if j == i { lemma_embedded_self(al1); } else { assert(ms1[j] == ms[j]); lemma_embedded_again(ms[j].alive_wordlist@, al, al1); }
        }
        assert forall|j: int, e: int| 0 <= j < ms1.len() && deepest(q, e) implies #[trigger] ms1[j].tight(e) by { assert(e == d); if j != i { assert(ms1[j] == ms[j]); } }
    }
    if al1.len() == al.len() {
        lemma_same_words(al, al1);
        assert(able(ms1, al, q)) by {
            reveal(able);
            assert forall|j: int| 0 <= j < ms1.len() implies (#[trigger] ms1[j]).phrase_matcher.ok() && ms1[j].phrase_matcher.tidy() && embedded(ms1[j].alive_wordlist@, al) by { if j != i { assert(ms1[j] == ms[j]); } }
        }
    }
}
pub proof fn lemma_no_phrases(ms: Seq<WordMatcher>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, q: Seq<SearchPhase>)
    requires preparing(ms, es, ws, limit, al, q), al.len() == 0 || q.len() == 0
    ensures forall|c: Seq<int>| !#[trigger] phrase(es, ws, limit, c)
{
    let m = choose|m: Seq<int>| #[trigger] traced(es, ws, limit, al, m);
    assert forall|c: Seq<int>| !#[trigger] phrase(es, ws, limit, c) by {
        if phrase(es, ws, limit, c) {
            let r = lemma_traced(es, ws, limit, al, m, c);
            assert(listed(q, c.len() as int, rarest(ws, c))) by { reveal(queued); }
        }
    }
}
pub proof fn lemma_useful(ms: Seq<WordMatcher>, al: Seq<&Word>, q: Seq<SearchPhase>, i: int)
    requires able(ms, al, q), 0 <= i < ms.len()
    ensures ms[i].phrase_matcher.ok(), ms[i].phrase_matcher.tidy(), embedded(ms[i].alive_wordlist@, al), forall|d: int| deepest(q, d) ==> #[trigger] ms[i].tight(d)
{ reveal(able); }
proof fn lemma_depths(es: Seq<Expression>, ws: Seq<&Word>, limit: int, q: Seq<SearchPhase>)
    requires queued(es, ws, limit, q)
    ensures forall|i: int| 0 <= i < q.len() ==> 2 <= (#[trigger] q[i]).depth <= limit
{ reveal(queued); }
/// One more of the matchers
proof fn lemma_agreed(ms: Seq<WordMatcher>, al: Seq<&Word>, i: int, s: WordMatcher)
    requires 0 <= i < ms.len(), s.named(), all_named(ms, i + 1)
    ensures all_named(ms.update(i, s), i), agreed(ms, al, i + 1) && s.alive_wordlist@.len() == al.len() ==> agreed(ms.update(i, s), al, i)
{ reveal(all_named); reveal(agreed); }

// ---- what the search for words leaves

/// The indexes of the elements that a filter keeps
proof fn lemma_kept_indexes<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> (g: Seq<int>)
    ensures into(g, s.len() as int), g.len() == s.filter(p).len(), forall|t: int| 0 <= t < g.len() ==> s[#[trigger] g[t]] == s.filter(p)[t], forall|k: int| 0 <= k < s.len() && p(#[trigger] s[k]) ==> g.contains(k)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 0 { Seq::empty() } else {
        let (s1, l) = (s.drop_last(), s.last());
        assert(s =~= s1.push(l));
        lemma_filter_push(s1, l, p);
        let g1 = lemma_kept_indexes(s1, p);
        let n = s1.len() as int;
        let g = if p(l) { g1.push(n) } else { g1 };
        assert forall|i: int| 0 <= i < g.len() implies 0 <= #[trigger] g[i] < s.len() by { if i < g1.len() { assert(g[i] == g1[i]); assert(0 <= g1[i] < s1.len()); } }
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] < g[j] by { assert(0 <= g1[i] < s1.len()); if j < g1.len() { assert(g1[i] < g1[j]); } }
        assert forall|t: int| 0 <= t < g.len() implies s[#[trigger] g[t]] == s.filter(p)[t] by { if t < g1.len() { assert(g[t] == g1[t]); assert(s1[g1[t]] == s1.filter(p)[t]); } }
        assert forall|k: int| 0 <= k < s.len() && p(#[trigger] s[k]) implies g.contains(k) by {
            if k < n { assert(s1[k] == s[k]); assert(g1.contains(k)); let t = choose|t: int| 0 <= t < g1.len() && g1[t] == k; assert(g[t] == k); } else { assert(g[g1.len() as int] == k); }
        }
        g
    }
}
pub open spec fn all_transitive(es: Seq<Expression>) -> bool { forall|i: int| 0 <= i < es.len() ==> transitive((#[trigger] es[i]).states@) }
/// What a matcher has kept, of the words before
proof fn lemma_source<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, i: int) -> (g: Seq<int>)
    requires finished(ms, ws), 0 <= i < ms.len()
    ensures ms[i].inv(ms[i].phrase_matcher.expression.n() as int), chosen(source_of(ms, ws, i), ms[i].alive_wordlist@, g),
        forall|k: int| 0 <= k < source_of(ms, ws, i).len() && kept(ms[i].phrase_matcher.expression, ms[i].phrase_matcher.expression.n() as int, (#[trigger] source_of(ms, ws, i)[k]).chars@) ==> g.contains(k)
{
    reveal(finished); reveal(linked); reveal(whole);
    let (s, e) = (ms[i], ms[i].phrase_matcher.expression);
    let x = source_of(ms, ws, i);
    assert(resting(s, ws, false));
    assert(e.starts(false) == e.n());
    assert(whole(s, x, false));
    assert(x.take(s.word_index as int) =~= x);
    let p = |w: &'a Word| kept(e, e.n() as int, w.chars@);
    assert(s.alive_wordlist@ == x.filter(p));
    let g = lemma_kept_indexes(x, p);
    assert forall|t: int| 0 <= t < g.len() implies same_word(x[g[t]], #[trigger] s.alive_wordlist@[t]) by { assert(x[g[t]] == x.filter(p)[t]); }
    assert forall|k: int| 0 <= k < x.len() && kept(e, e.n() as int, (#[trigger] x[k]).chars@) implies g.contains(k) by { assert(p(x[k])); }
    g
}
proof fn lemma_traced_upto<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, limit: int, i: int) -> (m: Seq<int>)
    requires finished(ms, ws), 0 <= i < ms.len(), all_transitive(patterns(ms))
    ensures traced(patterns(ms), ws, limit, ms[i].alive_wordlist@, m)
    decreases i
{
    let es = patterns(ms);
    let (al, x, e) = (ms[i].alive_wordlist@, source_of(ms, ws, i), ms[i].phrase_matcher.expression);
    let g = lemma_source(ms, ws, i);
    assert(es[i] == e);
    let h = if i == 0 { Seq::new(ws.len(), |k: int| k) } else { lemma_traced_upto(ms, ws, limit, i - 1) };
    assert(traced(es, ws, limit, x, h)) by {
        reveal(traced);
        if i == 0 { assert(chosen(ws, x, h)); assert forall|c: Seq<int>, j: int| #[trigger] phrase(es, ws, limit, c) && 0 <= j < c.len() implies h.contains(#[trigger] c[j]) by { assert(0 <= c[j] < ws.len()); assert(h[c[j]] == c[j]); } }
    }
    let m = comp(g, h);
    assert(chosen(ws, x, h)) by { reveal(traced); }
    lemma_chosen_again(ws, x, al, h, g);
    assert forall|c: Seq<int>, j: int| #[trigger] phrase(es, ws, limit, c) && 0 <= j < c.len() implies m.contains(#[trigger] c[j]) by {
        let r = lemma_traced(es, ws, limit, x, h, c);
        assert(finds(e, text(x, r))) by { reveal(all_find); assert(finds(es[i], text(ws, c))); }
        lemma_word_kept(e, x, r, j);
        assert(0 <= r[j] < x.len());
        assert(g.contains(r[j]));
        let t = choose|t: int| 0 <= t < g.len() && g[t] == r[j];
        assert(m[t] == c[j]);
    }
    assert(traced(es, ws, limit, al, m)) by { reveal(traced); }
    m
}
proof fn lemma_embedded_upto<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, i: int, j: int)
    requires finished(ms, ws), 0 <= i <= j < ms.len()
    ensures embedded(ms[i].alive_wordlist@, ms[j].alive_wordlist@)
    decreases j
{
    if i == j { lemma_embedded_self(ms[i].alive_wordlist@); } else {
        lemma_embedded_upto(ms, ws, i, j - 1);
        let g = lemma_source(ms, ws, j);
        assert(embedded(source_of(ms, ws, j), ms[j].alive_wordlist@)) by { reveal(embedded); }
        lemma_embedded_again(ms[i].alive_wordlist@, ms[j - 1].alive_wordlist@, ms[j].alive_wordlist@);
    }
}
/// The class of a phrase is that of one of its words
pub proof fn lemma_rarest_is(wl: Seq<&Word>, c: Seq<int>) -> (i: int)
    requires within(c, wl.len() as int), c.len() > 0
    ensures 0 <= i < c.len(), rarest(wl, c) == tranche_of(wl, c[i]), 0 <= c[i] < wl.len()
    decreases c.len()
{
    let d = c.drop_last();
    assert(0 <= c[c.len() - 1] < wl.len());
    if c.len() > 1 && rarest(wl, d) >= tranche_of(wl, c.last()) {
        assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < wl.len() by { assert(d[i] == c[i]); }
        let i = lemma_rarest_is(wl, d);
        assert(c[i] == d[i]);
        i
    } else { assert(d.len() == 0 ==> rarest(wl, d) == 0); c.len() - 1 }
}
pub proof fn lemma_sorted_still(ws: Seq<&Word>, al: Seq<&Word>, m: Seq<int>)
    requires chosen(ws, al, m), sorted(ws)
    ensures sorted(al)
{
    assert forall|i: int, j: int| 0 <= i <= j < al.len() implies #[trigger] tranche_of(al, i) <= #[trigger] tranche_of(al, j) by {
        assert(same_word(ws[m[i]], al[i]) && same_word(ws[m[j]], al[j]));
        assert(0 <= m[i] < ws.len() && 0 <= m[j] < ws.len());
        assert(i < j ==> m[i] < m[j]);
        assert(tranche_of(ws, m[i]) <= tranche_of(ws, m[j]));
    }
}
pub proof fn lemma_words_left<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, limit: int)
    requires finished(ms, ws), ms.len() >= 1, all_transitive(patterns(ms)), sorted(ws)
    ensures sorted(ms.last().alive_wordlist@)
{
    let m = lemma_traced_upto(ms, ws, limit, ms.len() - 1);
    assert(chosen(ws, ms.last().alive_wordlist@, m)) by { reveal(traced); }
    lemma_sorted_still(ws, ms.last().alive_wordlist@, m);
}
pub proof fn lemma_begin<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, limit: int, q: Seq<SearchPhase>)
    requires finished(ms, ws), ms.len() >= 1, all_transitive(patterns(ms)), all_phases(ms.last().alive_wordlist@, q, limit)
    ensures preparing(ms, patterns(ms), ws, limit, ms.last().alive_wordlist@, q)
{
    let (es, al, n) = (patterns(ms), ms.last().alive_wordlist@, ms.len() as int);
    let m = lemma_traced_upto(ms, ws, limit, n - 1);
    reveal(all_phases);
    assert(able(ms, al, q)) by {
        reveal(able);
        assert forall|i: int, d: int| 0 <= i < n && deepest(q, d) implies #[trigger] ms[i].tight(d) by { let g = lemma_source(ms, ws, i); assert(transitive(es[i].states@)); lemma_first_tight(ms[i], d); }
        assert forall|i: int| 0 <= i < n implies (#[trigger] ms[i]).phrase_matcher.ok() && ms[i].phrase_matcher.tidy() && embedded(ms[i].alive_wordlist@, al) by { let g = lemma_source(ms, ws, i); assert(transitive(es[i].states@)); lemma_first_tight(ms[i], 0); lemma_embedded_upto(ms, ws, i, n - 1); }
    }
    assert(queued(es, ws, limit, q)) by {
        reveal(queued);
        assert forall|c: Seq<int>| #[trigger] phrase(es, ws, limit, c) implies listed(q, c.len() as int, rarest(ws, c)) by {
            let r = lemma_traced(es, ws, limit, al, m, c);
            let i = lemma_rarest_is(al, r);
            assert(listed(q, c.len() as int, tranche_of(al, r[i])));
        }
    }
    assert(level(al, q)) by { reveal(level); assert forall|i: int, w: int| 0 <= i < q.len() && 0 <= w < al.len() implies listed(q, (#[trigger] q[i]).depth as int, #[trigger] tranche_of(al, w)) by { assert(2 <= q[i].depth <= limit); } }
}

#[verifier::external_body]
pub fn next_pass(n: usize) -> (r: usize) ensures n < usize::MAX ==> r == n + 1 { n + 1 }
""")
    f = Fn(
        sig="""    requires old(matchers)@.len() >= 1, limit@ < usize::MAX, preparing(old(matchers)@, es@, ws@, limit@, alive_wordlist@, search_queue@)
    ensures r is None ==> forall|c: Seq<int>| !#[trigger] phrase(es@, ws@, limit@, c),
        r is Some ==> preparing(final(matchers)@, es@, ws@, limit@, (r->0).0@, (r->0).1@) && ((r->0).0@.len() > 0 ==> agreed(final(matchers)@, (r->0).0@, 0)), final(matchers)@.len() == old(matchers)@.len()""",
        rules=[("self.phase = QueryPhase::Done; return QueryResponse::Complete($e);", "return None;", "the search ends where this is called"),
               ("for matcher in matchers.iter() { $z }", "let mut n_: usize = 0; while n_ < matchers.len() { let matcher = &matchers[n_]; n_ += 1; $z }", EACH),
               ("for matcher in matchers.iter_mut().rev() { $z }", "let mut n_: usize = matchers.len(); while n_ > 0 { n_ -= 1; let matcher = &mut matchers[n_]; $z }", EACH),
               ("assert!($e);", "proof { assert($e); }", ASSERT),
               ("matcher.alive_wordlist.clone()", "copy_words(&matcher.alive_wordlist)", LIB),
               ("matchers.iter().all(|$im| $e)", "{ let mut all_: bool = true; let mut n_: usize = 0; while all_ && n_ < matchers.len() { let $im = &matchers[n_]; n_ += 1; all_ = $e; } all_ }", EACH),
               ("log_messages.push($e);", "", "messages are left out"),
               ("optimization_passes += 1;", "optimization_passes = next_pass(optimization_passes);", "the number of passes does not overflow")],
        attrs=ATTRS,
        start="        let ghost (es, ws, limit) = (es@, ws@, limit@); let ghost k = matchers@.len() as int;",
        at=[("let did_opt = matcher.optimize_for_wordlist(&alive_wordlist, &search_queue);", "before", "                            proof { lemma_useful(ms_, alive_wordlist@, search_queue@, n_ as int); lemma_depths(es, ws, limit, search_queue@); }"),
            ("let did_opt = matcher.optimize_for_wordlist(&alive_wordlist, &search_queue);", "after", "                            let ghost s_ = *matcher; proof { lemma_deepest(search_queue@); assert(s_.tight(deepest_of(search_queue@))); lemma_optimized(ms_, es, ws, limit, alive_wordlist@, search_queue@, n_ as int, s_); lemma_agreed(ms_, alive_wordlist@, n_ as int, s_); lemma_size(ms_, n_ as int, s_); }"),
            ("matcher.filter_search_phases(&mut search_queue);", "before", "                                let ghost q_ = search_queue@; proof { lemma_useful(matchers@, alive_wordlist@, q_, n_ - 1); lemma_depths(es, ws, limit, q_); lemma_filtered(matchers@, es, ws, limit, alive_wordlist@, q_, n_ - 1); }"),
            ("return None;", "before", "                                proof { lemma_no_phrases(matchers@, es, ws, limit, alive_wordlist@, search_queue@); }"),
            ],
        loops=[
            Loop("""                        invariant matchers@.len() == k, preparing(matchers@, es, ws, limit, alive_wordlist@, search_queue@)
                        ensures alive_wordlist@.len() > 0 ==> agreed(matchers@, alive_wordlist@, 0)
                        decreases size(matchers@) + alive_wordlist@.len() + search_queue@.len()""",
                 start="                        proof { lemma_size_positive(matchers@); } let ghost size0 = size(matchers@) + alive_wordlist@.len() + search_queue@.len();",
                 end="                        proof { assert(!converged); assert(size(matchers@) + alive_wordlist@.len() + search_queue@.len() < size0); lemma_size_positive(matchers@); }"),
            Loop("""                            invariant matchers@.len() == k, preparing(matchers@, es, ws, limit, alive_wordlist@, search_queue@), size(matchers@) + alive_wordlist@.len() + search_queue@.len() <= size0, !converged ==> size(matchers@) + alive_wordlist@.len() + search_queue@.len() < size0
                            ensures search_queue@.len() > 0
                            decreases search_queue@.len()"""),
            Loop("""                                invariant n_ <= k, matchers@.len() == k, preparing(matchers@, es, ws, limit, alive_wordlist@, search_queue@), search_queue@.len() <= l, size(matchers@) + alive_wordlist@.len() + l <= size0
                                decreases k - n_"""),
            Loop("""                            invariant_except_break converged ==> agreed(matchers@, alive_wordlist@, n_ as int)
                            invariant n_ <= k, matchers@.len() == k, search_queue@.len() > 0, preparing(matchers@, es, ws, limit, alive_wordlist@, search_queue@), all_named(matchers@, n_ as int), size(matchers@) + alive_wordlist@.len() + search_queue@.len() <= size0, !converged ==> size(matchers@) + alive_wordlist@.len() + search_queue@.len() < size0
                            ensures n_ == 0 || alive_wordlist@.len() == 0, converged ==> agreed(matchers@, alive_wordlist@, 0)
                            decreases n_""",
                 before="                        proof { assert(agreed(matchers@, alive_wordlist@, k)) by { reveal(agreed); } assert(all_named(matchers@, k)) by { reveal(all_named); } lemma_size_positive(matchers@); }",
                 start="                            let ghost ms_ = matchers@; let ghost al_ = alive_wordlist@;",
                 end="                            proof { assert(matchers@ =~= ms_.update(n_ as int, s_)); }"),
            Loop("""                                invariant n_ <= k, matchers@.len() == k, all_ ==> forall|i: int| 0 <= i < n_ ==> (#[trigger] matchers@[i]).alive_wordlist@.len() == alive_wordlist@.len()
                                decreases k - n_""",
                 after="                            proof { if all_ && alive_wordlist@.len() > 0 { assert(agreed(matchers@, alive_wordlist@, 0)) by { reveal(agreed); reveal(all_named); } } }"),
        ])
    f.part = ("let mut optimization_passes: usize = 0; loop { $z } log_messages.push($l);",
              "pub fn converge_<'word>(matchers: &mut Vec<WordMatcher<'word>>, mut alive_wordlist: Vec<&'word Word>, mut search_queue: Vec<SearchPhase>, es: Ghost<Seq<Expression>>, ws: Ghost<Seq<&'word Word>>, limit: Ghost<int>) -> Option<(Vec<&'word Word>, Vec<SearchPhase>)>",
              "let mut optimization_passes: usize = 0; loop { $z } Some((alive_wordlist, search_queue))")
    m.fn("next_within_deadline", f, header="impl<'word> QueryEvaluator<'word>", qual="QueryEvaluator<'word>::next_within_deadline: passes")
    return m
