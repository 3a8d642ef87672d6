"""The search over words and phrases"""
from build import Module, struct
from extract import Fn, Loop, rewrite, lex

TEXT = "the text of a message is made by a function without a contract"
LAST = "the adaptor of the iterator is written out as the loop it performs"
PREPARE = "what prepares the search for phrases is a function of its own, which is verified by itself (`part`); here it is called"
CLOCK = "reading the clock becomes a call of a function which is given the clock as a parameter"
SPLIT = "the split of a vector into two parts is a wrapper with an assumed contract"
SAME = "the derived comparison of words is a wrapper with an assumed contract"
ONE = "a vector of one copy is made by a wrapper with an assumed contract"
OTHER = "the arm for the other phase is a call of a function which requires that it is never called"
FIRST = "the first element of a vector is taken by a wrapper with an assumed contract"
EACH = "a `for` loop over the elements with their indices is written out as a `while` loop"
MAX = "the maximum of two numbers is a wrapper with an assumed contract"
RETAIN = "retaining is written out as a loop which removes elements"
NEXT = "a `for` loop over mutable references is written out as calls of a wrapper with an assumed contract"


def enum(m, name, attrs="", rules=()):
    it = m.src.find("enum", name)
    t = it.core
    for pat, rep, why in rules:
        t, n = rewrite(t, pat, rep)
        if n:
            m.log.append((f"{m.name}::{name}", pat, rep, n, why))
    m.text(attrs + (t if t.startswith("pub") else "pub " + t))


def module():
    m = Module("query", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::converge::phrase;
use std::time::Instant;

// ---- what stands for types and functions of libraries

#[verifier::external_body]
pub fn text_() -> String { String::new() }
pub open spec fn same_text(w: Word, v: Word) -> bool { w.chars@ == v.chars@ && w.tranche == v.tranche && w.score == v.score && w.text@ == v.text@ }
#[verifier::external_body]
pub fn same_words(w: Option<&Word>, v: Option<&Word>) -> (r: bool) ensures r ==> (w is Some) == (v is Some), r && w is Some ==> w->0.chars@ == v->0.chars@, w == v ==> r { unimplemented!() }
#[verifier::external_body]
pub fn one_word(w: &Word) -> (r: Vec<Word>) ensures r@.len() == 1, same_text(r@[0], *w) { unimplemented!() }
#[verifier::external_body]
pub fn next_mut<'a, T>(s: &'a mut [T]) -> (r: Option<(&'a mut T, &'a mut [T])>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
        old(s)@.len() > 0 ==> r is Some && *(r->0).0 == old(s)@[0] && (r->0).1@ == old(s)@.skip(1) && final(s)@ == seq![*final((r->0).0)] + final((r->0).1)@ { unimplemented!() }
#[verifier::external_body]
pub fn never_() -> QueryResponse requires false { unimplemented!() }
#[verifier::external_body]
pub fn split_mut<T>(s: &mut Vec<T>, k: usize) -> (r: (&mut [T], &mut [T]))
    requires k <= old(s)@.len()
    ensures r.0@ == old(s)@.take(k as int), r.1@ == old(s)@.skip(k as int), final(r.0)@.len() == k, final(r.1)@.len() == old(s)@.len() - k, final(s)@ == final(r.0)@ + final(r.1)@ { unimplemented!() }
""")
    struct(m, "SearchLayer")
    enum(m, "QueryPhase", "#[allow(inconsistent_fields)]\n")
    enum(m, "QueryResponse", rules=[("#[derive($x)]", "", "derived traits")])
    struct(m, "QueryEvaluator")
    m.text(r"""
// ---- specifications

/// Does every one of the patterns match the word?
#[verifier::opaque]
pub open spec fn all_find(es: Seq<Expression>, w: Seq<Char>) -> bool { forall|i: int| 0 <= i < es.len() ==> finds(#[trigger] es[i], w) }
/// None of the words of this range is matched by all patterns
#[verifier::opaque]
pub open spec fn none_matches(es: Seq<Expression>, ws: Seq<&Word>, lo: int, hi: int) -> bool { forall|k: int| lo <= k < hi ==> !all_find(es, (#[trigger] ws[k]).chars@) }
pub open spec fn patterns(ms: Seq<WordMatcher>) -> Seq<Expression> { ms.map_values(|m: WordMatcher| m.phrase_matcher.expression) }
pub open spec fn all_words(ws: &[Word]) -> Seq<&Word> { Seq::new(ws@.len(), |i: int| &ws@[i]) }
pub open spec fn among(v: Seq<&Word>, ws: Seq<&Word>) -> bool { v.len() <= ws.len() && forall|j: int| 0 <= j < v.len() ==> ws.contains(#[trigger] v[j]) }
/// The state of a matcher between words
pub open spec fn resting(m: WordMatcher, ws: Seq<&Word>, single: bool) -> bool {
    m.inv(m.phrase_matcher.expression.starts(single)) && m.fits(ws) && among(m.alive_wordlist@, ws)
}
/// It has kept what can be part of a phrase, of the words `prev` that it has evaluated
#[verifier::opaque]
pub open spec fn whole(m: WordMatcher, prev: Seq<&Word>, single: bool) -> bool {
    m.word_index <= prev.len() && m.alive_wordlist@ == m.keeps(prev.take(m.word_index as int), m.phrase_matcher.expression.starts(single))
}
pub open spec fn source_of<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, i: int) -> Seq<&'a Word> { if i == 0 { ws } else { ms[i - 1].alive_wordlist@ } }
/// Every matcher evaluates the words that the one before has kept
#[verifier::opaque]
pub open spec fn linked(ms: Seq<WordMatcher>, ws: Seq<&Word>, single: bool) -> bool {
    &&& forall|i: int| 0 <= i < ms.len() ==> resting(#[trigger] ms[i], ws, single)
    &&& forall|i: int| 0 < i < ms.len() ==> (#[trigger] ms[i]).word_index <= ms[i - 1].alive_wordlist@.len()
    &&& forall|i: int| 0 <= i < ms.len() ==> whole(#[trigger] ms[i], source_of(ms, ws, i), single)
}

impl<'word> QueryEvaluator<'word> {
    pub open spec fn single(self) -> bool { self.search_depth_limit <= 1 }
    pub open spec fn ms(self) -> Seq<WordMatcher<'word>> { self.phase->Word_matchers@ }
    pub open spec fn list(self) -> Seq<&'word Word> { all_words(self.phase->Word_wordlist) }
    pub open spec fn position(self) -> int { self.ms()[0].word_index as int }
    pub open spec fn limited(self) -> bool { self.results_limit is Some && self.results_count >= self.results_limit->0 }
    /// While single words are looked for
    pub open spec fn word_inv(self) -> bool {
        &&& self.phase is Word && self.ms().len() >= 1 && self.position() <= self.list().len()
        &&& linked(self.ms(), self.list(), self.single())
    }
    /// The search for single words goes on
    pub open spec fn goes_on(self, next: Self) -> bool {
        next.word_inv() && next.list() == self.list() && patterns(next.ms()) == patterns(self.ms()) && self.position() <= next.position()
    }
}
pub proof fn lemma_filter_from<A>(s: Seq<A>, p: spec_fn(A) -> bool, j: int)
    requires 0 <= j < s.filter(p).len()
    ensures s.contains(s.filter(p)[j]), p(s.filter(p)[j])
    decreases s.len()
{
    reveal(Seq::filter);
    let t = s.drop_last();
    if s.len() > 0 {
        if j < t.filter(p).len() {
            lemma_filter_from(t, p, j);
            let k = choose|k: int| 0 <= k < t.len() && t[k] == t.filter(p)[j];
            assert(s[k] == t.filter(p)[j]);
        } else {
            assert(s[s.len() - 1] == s.filter(p)[j]);
        }
    }
}
proof fn lemma_among_filter<'a>(v: Seq<&'a Word>, ws: Seq<&'a Word>, u: Seq<&'a Word>, p: spec_fn(&'a Word) -> bool)
    requires among(v, ws), among(u, ws), (v + u.filter(p)).len() <= ws.len()
    ensures among(v + u.filter(p), ws)
{
    let r = v + u.filter(p);
    assert forall|j: int| 0 <= j < r.len() implies ws.contains(#[trigger] r[j]) by {
        if j < v.len() { assert(r[j] == v[j]); } else {
            let x = u.filter(p)[j - v.len()];
            assert(r[j] == x);
            lemma_filter_from(u, p, j - v.len());
        }
    }
}
proof fn lemma_finds_kept(e: Expression, a: int, w: Seq<Char>)
    requires a >= 1, finds(e, w)
    ensures kept(e, a, w)
{
    assert(e.reach(0, w, e.fuzz as int)(e.n() - 1));
    assert(live(e, a, w));
    lemma_kept(e, a, w);
}
/// Filtering part of a list after a part before it
pub proof fn lemma_filter_parts<A>(s: Seq<A>, x: int, y: int, z: int, p: spec_fn(A) -> bool)
    requires 0 <= x <= y <= z <= s.len()
    ensures s.subrange(x, y).filter(p) + s.subrange(y, z).filter(p) == s.subrange(x, z).filter(p)
{
    Seq::filter_distributes_over_add(s.subrange(x, y), s.subrange(y, z), p);
    assert(s.subrange(x, y) + s.subrange(y, z) =~= s.subrange(x, z));
}
pub proof fn lemma_advance<'a>(m0: WordMatcher<'a>, m1: WordMatcher<'a>, m2: WordMatcher<'a>, ws: Seq<&'a Word>, single: bool)
    requires m0.advanced(m1, ws, single), m1.advanced(m2, ws, single)
    ensures m0.advanced(m2, ws, single)
{
    let e = m0.phrase_matcher.expression;
    let p = |w: &'a Word| kept(e, e.starts(single), w.chars@);
    lemma_filter_parts(ws, m0.word_index as int, m1.word_index as int, m2.word_index as int, p);
    assert(m2.alive_wordlist@ =~= m0.alive_wordlist@ + (ws.subrange(m0.word_index as int, m1.word_index as int).filter(p) + ws.subrange(m1.word_index as int, m2.word_index as int).filter(p)));
}
pub proof fn lemma_whole<'a>(m0: WordMatcher<'a>, m1: WordMatcher<'a>, prev0: Seq<&'a Word>, prev: Seq<&'a Word>, single: bool)
    requires whole(m0, prev0, single), prev0.is_prefix_of(prev), m0.advanced(m1, prev, single)
    ensures whole(m1, prev, single), m0.alive_wordlist@.is_prefix_of(m1.alive_wordlist@)
{
    reveal(whole);
    let e = m0.phrase_matcher.expression;
    let p = |w: &'a Word| kept(e, e.starts(single), w.chars@);
    let (x, y) = (m0.word_index as int, m1.word_index as int);
    assert(prev0.take(x) =~= prev.subrange(0, x));
    assert(prev.take(y) =~= prev.subrange(0, y));
    lemma_filter_parts(prev, 0, x, y, p);
}
pub proof fn lemma_whole_more<'a>(m: WordMatcher<'a>, prev0: Seq<&'a Word>, prev: Seq<&'a Word>, single: bool)
    requires whole(m, prev0, single), prev0.is_prefix_of(prev)
    ensures whole(m, prev, single)
{
    reveal(whole);
    assert(prev0.take(m.word_index as int) =~= prev.take(m.word_index as int));
}
/// After a matcher has evaluated more of the words
pub proof fn lemma_rest<'a>(m0: WordMatcher<'a>, m1: WordMatcher<'a>, ws: Seq<&'a Word>, prev: Seq<&'a Word>, single: bool)
    requires resting(m0, ws, single), among(prev, ws), m0.advanced(m1, prev, single), m1.ready(prev, single), m1.word_index <= prev.len()
    ensures resting(m1, ws, single), m1.alive_wordlist@.len() >= m0.alive_wordlist@.len()
{
    let e = m0.phrase_matcher.expression;
    let u = prev.subrange(m0.word_index as int, m1.word_index as int);
    assert forall|j: int| 0 <= j < u.len() implies ws.contains(#[trigger] u[j]) by { assert(u[j] == prev[m0.word_index + j]); }
    lemma_among_filter(m0.alive_wordlist@, ws, u, |w: &'a Word| kept(e, e.starts(single), w.chars@));
}
/// The last of the words is kept if it is matched
proof fn lemma_last<'a>(m0: WordMatcher<'a>, m1: WordMatcher<'a>, prev: Seq<&'a Word>, single: bool)
    requires m0.advanced(m1, prev, single), m1.ready(prev, single), m0.word_index < m1.word_index, m0.finds(prev[m1.word_index - 1])
    ensures m1.alive_wordlist@.len() > m0.alive_wordlist@.len(), m1.alive_wordlist@.last() == prev[m1.word_index - 1]
{
    let e = m0.phrase_matcher.expression;
    let p = |w: &'a Word| kept(e, e.starts(single), w.chars@);
    let k = m1.word_index - 1;
    lemma_finds_kept(e, e.starts(single), prev[k].chars@);
    assert(prev.subrange(m0.word_index as int, k + 1) =~= prev.subrange(m0.word_index as int, k).push(prev[k]));
    lemma_filter_push(prev.subrange(m0.word_index as int, k), prev[k], p);
}
pub proof fn lemma_fits<'a>(m: WordMatcher<'a>, ws: Seq<&'a Word>, prev: Seq<&'a Word>)
    requires m.fits(ws), among(prev, ws)
    ensures m.fits(prev)
{
    assert forall|i: int| 0 <= i < prev.len() implies good((#[trigger] prev[i]).chars@) && prev[i].chars@.len() < m.table_char_src_fuzz_dst@.len() by {
        assert(ws.contains(prev[i]));
        let k = choose|k: int| 0 <= k < ws.len() && ws[k] == prev[i];
        assert(good(ws[k].chars@));
    }
}
proof fn lemma_all_find(es: Seq<Expression>, k: int, w: Seq<Char>)
    requires 0 <= k < es.len()
    ensures all_find(es.take(k + 1), w) == (all_find(es.take(k), w) && finds(es[k], w))
{
    reveal(all_find);
    let x = es.take(k);
    let y = es.take(k + 1);
    assert forall|i: int| 0 <= i < k implies x[i] == #[trigger] y[i] by {}
    if all_find(y, w) { assert(finds(y[k], w)); assert forall|i: int| 0 <= i < x.len() implies finds(#[trigger] x[i], w) by { assert(finds(y[i], w)); } }
    if all_find(x, w) && finds(es[k], w) { assert forall|i: int| 0 <= i < y.len() implies finds(#[trigger] y[i], w) by { if i < k { assert(finds(x[i], w)); } } }
}
proof fn lemma_none_matches(es: Seq<Expression>, ws: Seq<&Word>, lo: int, mid: int, hi: int)
    requires none_matches(es, ws, lo, mid), es.len() >= 1, none_found(es[0], ws, mid, hi)
    ensures none_matches(es, ws, lo, hi)
{
    reveal(none_matches); reveal(none_found); reveal(all_find);
    assert forall|k: int| lo <= k < hi implies !all_find(es, (#[trigger] ws[k]).chars@) by { if k >= mid { assert(!finds(es[0], ws[k].chars@)); } }
}
proof fn lemma_none_matches_one(es: Seq<Expression>, ws: Seq<&Word>, lo: int, hi: int)
    requires none_matches(es, ws, lo, hi), !all_find(es, ws[hi].chars@)
    ensures none_matches(es, ws, lo, hi + 1)
{ reveal(none_matches); }

/// The first matcher has found a word, and the others have to catch up: those that have done so
#[verifier::opaque]
pub open spec fn linking(f0: WordMatcher, f1: WordMatcher, rem0: Seq<WordMatcher>, done: Seq<WordMatcher>, ws: Seq<&Word>, single: bool) -> bool {
    &&& done.len() <= rem0.len() && linked(seq![f0] + rem0, ws, single) && resting(f1, ws, single) && f1.alive_wordlist@.len() >= f0.alive_wordlist@.len()
    &&& whole(f1, ws, single) && f0.alive_wordlist@.is_prefix_of(f1.alive_wordlist@)
    &&& forall|i: int| 0 <= i < done.len() ==> whole(#[trigger] done[i], (if i == 0 { f1 } else { done[i - 1] }).alive_wordlist@, single) && rem0[i].alive_wordlist@.is_prefix_of(done[i].alive_wordlist@)
    &&& forall|i: int| 0 <= i < done.len() ==> resting(#[trigger] done[i], ws, single) && done[i].phrase_matcher.expression == rem0[i].phrase_matcher.expression && done[i].alive_wordlist@.len() >= rem0[i].alive_wordlist@.len()
            && done[i].word_index == (if i == 0 { f1 } else { done[i - 1] }).alive_wordlist@.len()
}
pub proof fn lemma_start(f: Seq<WordMatcher>, rem: Seq<WordMatcher>, ws: Seq<&Word>, single: bool)
    requires f.len() == 1, linked(f + rem, ws, single)
    ensures resting(f[0], ws, single)
{ reveal(linked); assert((f + rem)[0] == f[0]); }
proof fn lemma_found<'a>(f0: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, f1: WordMatcher<'a>, es: Seq<Expression>, ws: Seq<&'a Word>, single: bool, hit: int)
    requires linked(seq![f0] + rem0, ws, single), f0.advanced(f1, ws, single), f1.ready(ws, single), f1.word_index == hit + 1, hit >= f0.word_index, f0.finds(ws[hit]), es == patterns(seq![f0] + rem0)
    ensures linking(f0, f1, rem0, Seq::<WordMatcher>::empty(), ws, single), f1.alive_wordlist@.len() > f0.alive_wordlist@.len(), f1.alive_wordlist@.last() == ws[hit], all_find(es.take(1), ws[hit].chars@), among(f1.alive_wordlist@, ws)
{
    reveal(linked); reveal(linking); reveal(all_find);
    assert((seq![f0] + rem0)[0] == f0);
    assert(resting(f0, ws, single));
    assert(source_of(seq![f0] + rem0, ws, 0) == ws);
    lemma_whole(f0, f1, ws, ws, single);
    lemma_rest(f0, f1, ws, ws, single);
    lemma_last(f0, f1, ws, single);
    assert(es.take(1)[0] == f0.phrase_matcher.expression);
}

/// Whose turn it is
pub proof fn lemma_turn<'a>(f0: WordMatcher<'a>, f1: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, done: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, single: bool, prev: Seq<&'a Word>)
    requires linking(f0, f1, rem0, done, ws, single), done.len() < rem0.len(), prev == (if done.len() == 0 { f1 } else { done.last() }).alive_wordlist@
    ensures resting(rem0[done.len() as int], ws, single), rem0[done.len() as int].ready(prev, single), among(prev, ws), rem0[done.len() as int].word_index <= (if done.len() == 0 { f0 } else { rem0[done.len() - 1] }).alive_wordlist@.len()
{
    reveal(linked); reveal(linking);
    let k = done.len() as int;
    let all = seq![f0] + rem0;
    assert(all[k + 1] == rem0[k]);
    assert(all[k] == if k == 0 { f0 } else { rem0[k - 1] });
    assert(resting(all[k + 1], ws, single));
    if k > 0 { assert(resting(done[k - 1], ws, single)); }
    lemma_fits(rem0[k], ws, prev);
}
/// The last of the words that was matched
pub open spec fn last_of(e: Expression, prev: Seq<&Word>, lo: int, hi: int, last: Option<&Word>) -> bool {
    match last { None => none_found(e, prev, lo, hi), Some(v) => exists|j: int| lo <= j < hi && v == #[trigger] prev[j] && finds(e, v.chars@) && none_found(e, prev, j + 1, hi) }
}
proof fn lemma_last_of(e: Expression, prev: Seq<&Word>, lo: int, mid: int, hi: int, last: Option<&Word>)
    requires last_of(e, prev, lo, mid, last), none_found(e, prev, mid, hi), 0 <= lo <= mid <= hi <= prev.len()
    ensures last_of(e, prev, lo, hi, last)
{
    reveal(none_found);
    if last is Some {
        let v = last->0;
        let j = choose|j: int| lo <= j < mid && v == #[trigger] prev[j] && finds(e, v.chars@) && none_found(e, prev, j + 1, mid);
        assert(none_found(e, prev, j + 1, hi));
    }
}
/// One more matcher has evaluated what the one before has kept
pub proof fn lemma_linked_more<'a>(f0: WordMatcher<'a>, f1: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, done: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, single: bool, prev: Seq<&'a Word>, m1: WordMatcher<'a>)
    requires linking(f0, f1, rem0, done, ws, single), done.len() < rem0.len(), prev == (if done.len() == 0 { f1 } else { done.last() }).alive_wordlist@,
        rem0[done.len() as int].advanced(m1, prev, single), m1.ready(prev, single), m1.word_index == prev.len()
    ensures linking(f0, f1, rem0, done.push(m1), ws, single), among(m1.alive_wordlist@, ws), m1.alive_wordlist@.len() >= rem0[done.len() as int].alive_wordlist@.len()
{
    let k = done.len() as int;
    let m0 = rem0[k];
    lemma_turn(f0, f1, rem0, done, ws, single, prev);
    lemma_rest(m0, m1, ws, prev, single);
    assert(whole(m1, prev, single) && m0.alive_wordlist@.is_prefix_of(m1.alive_wordlist@)) by {
        reveal(linked); reveal(linking);
        let all = seq![f0] + rem0;
        assert(all[k + 1] == m0);
        assert(all[k] == if k == 0 { f0 } else { rem0[k - 1] });
        assert(whole(all[k + 1], source_of(all, ws, k + 1), single));
        if k > 0 { assert(whole(done[k - 1], (if k == 1 { f1 } else { done[k - 2] }).alive_wordlist@, single)); }
        lemma_whole(m0, m1, all[k].alive_wordlist@, prev, single);
    }
    assert(linking(f0, f1, rem0, done.push(m1), ws, single)) by {
        reveal(linking);
        let d2 = done.push(m1);
        assert forall|i: int| 0 <= i < d2.len() implies whole(#[trigger] d2[i], (if i == 0 { f1 } else { d2[i - 1] }).alive_wordlist@, single) && rem0[i].alive_wordlist@.is_prefix_of(d2[i].alive_wordlist@) by { if i < k { assert(d2[i] == done[i]); if i > 0 { assert(d2[i - 1] == done[i - 1]); } } else if i > 0 { assert(d2[i - 1] == done.last()); } }
        assert forall|i: int| 0 <= i < d2.len() implies resting(#[trigger] d2[i], ws, single) && d2[i].phrase_matcher.expression == rem0[i].phrase_matcher.expression && d2[i].alive_wordlist@.len() >= rem0[i].alive_wordlist@.len()
            && d2[i].word_index == (if i == 0 { f1 } else { d2[i - 1] }).alive_wordlist@.len() by { if i < k { assert(d2[i] == done[i]); if i > 0 { assert(d2[i - 1] == done[i - 1]); } } }
    }
}
/// One more matcher has evaluated what the one before has kept, up to a word that was found
proof fn lemma_caught_up<'a>(f0: WordMatcher<'a>, f1: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, done: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, single: bool, prev: Seq<&'a Word>, m1: WordMatcher<'a>, es: Seq<Expression>, word: &'a Word, last: Option<&'a Word>, am0: bool)
    requires linking(f0, f1, rem0, done, ws, single), done.len() < rem0.len(), prev == (if done.len() == 0 { f1 } else { done.last() }).alive_wordlist@, es == patterns(seq![f0] + rem0),
        rem0[done.len() as int].advanced(m1, prev, single), m1.ready(prev, single), m1.word_index == prev.len(), last_of(rem0[done.len() as int].phrase_matcher.expression, prev, rem0[done.len() as int].word_index as int, prev.len() as int, last),
        am0 == all_find(es.take(done.len() as int + 1), word.chars@), am0 ==> prev.len() > rem0[done.len() as int].word_index && prev.last() == word
    ensures linking(f0, f1, rem0, done.push(m1), ws, single), among(m1.alive_wordlist@, ws), done.push(m1).last() == m1,
        am0 && last == Some(word) ==> all_find(es.take(done.len() as int + 2), word.chars@),
        am0 && last is Some && last->0.chars@ == word.chars@ ==> all_find(es.take(done.len() as int + 2), word.chars@),
        all_find(es.take(done.len() as int + 2), word.chars@) ==> am0 && last == Some(word) && m1.alive_wordlist@.len() > rem0[done.len() as int].alive_wordlist@.len() && m1.alive_wordlist@.last() == word
{
    let k = done.len() as int;
    let m0 = rem0[k];
    let e = m0.phrase_matcher.expression;
    lemma_turn(f0, f1, rem0, done, ws, single, prev);
    lemma_linked_more(f0, f1, rem0, done, ws, single, prev, m1);
    assert(es[k + 1] == e);
    lemma_all_find(es, k + 1, word.chars@);
    if am0 && finds(e, word.chars@) {
        reveal(none_found);
        assert(prev[prev.len() - 1] == word);
        if last is None { assert(!finds(e, prev[prev.len() - 1].chars@)); }
        let j = choose|j: int| m0.word_index <= j < prev.len() && last->0 == #[trigger] prev[j] && finds(e, last->0.chars@) && none_found(e, prev, j + 1, prev.len() as int);
        if j < prev.len() - 1 { assert(!finds(e, prev[prev.len() - 1].chars@)); }
        lemma_last(m0, m1, prev, single);
    }
}
/// All matchers have caught up
pub proof fn lemma_all_done<'a>(f0: WordMatcher<'a>, f1: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, done: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, single: bool, es: Seq<Expression>)
    requires linking(f0, f1, rem0, done, ws, single), done.len() == rem0.len(), es == patterns(seq![f0] + rem0), f1.phrase_matcher.expression == f0.phrase_matcher.expression
    ensures linked(seq![f1] + done, ws, single), patterns(seq![f1] + done) == es, resting(f1, ws, single), es.take(rem0.len() as int + 1) == es
{
    reveal(linked); reveal(linking);
    let all = seq![f1] + done;
    assert forall|i: int| 0 <= i < all.len() implies resting(#[trigger] all[i], ws, single) by { if i > 0 { assert(all[i] == done[i - 1]); } }
    assert forall|i: int| 0 < i < all.len() implies (#[trigger] all[i]).word_index <= all[i - 1].alive_wordlist@.len() by { assert(all[i] == done[i - 1]); if i > 1 { assert(all[i - 1] == done[i - 2]); } }
    assert forall|i: int| 0 <= i < all.len() implies whole(#[trigger] all[i], source_of(all, ws, i), single) by { if i > 0 { assert(all[i] == done[i - 1]); if i > 1 { assert(all[i - 1] == done[i - 2]); } } }
    assert(patterns(all) =~= es) by {
        assert forall|i: int| 0 <= i < all.len() implies (#[trigger] patterns(all)[i]) == es[i] by { if i > 0 { assert(all[i] == done[i - 1]); assert((seq![f0] + rem0)[i] == rem0[i - 1]); } }
    }
    assert(es.take(rem0.len() as int + 1) =~= es);
}
/// The first matcher has found none
proof fn lemma_no_more<'a>(f0: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, f1: WordMatcher<'a>, es: Seq<Expression>, ws: Seq<&'a Word>, single: bool, lo: int)
    requires linked(seq![f0] + rem0, ws, single), f0.advanced(f1, ws, single), f1.ready(ws, single), none_found(f0.phrase_matcher.expression, ws, f0.word_index as int, f1.word_index as int), es == patterns(seq![f0] + rem0), none_matches(es, ws, lo, f0.word_index as int)
    ensures none_matches(es, ws, lo, f1.word_index as int), linked(seq![f1] + rem0, ws, single), patterns(seq![f1] + rem0) == es, resting(f1, ws, single)
{
    reveal(linked);
    let x = seq![f0] + rem0;
    let y = seq![f1] + rem0;
    assert(resting(x[0], ws, single));
    lemma_rest(f0, f1, ws, ws, single);
    assert(source_of(x, ws, 0) == ws);
    assert(whole(x[0], ws, single));
    lemma_whole(f0, f1, ws, ws, single);
    assert forall|i: int| 0 <= i < y.len() implies whole(#[trigger] y[i], source_of(y, ws, i), single) by { if i > 0 { assert(whole(x[i], source_of(x, ws, i), single)); assert(y[i] == x[i]); if i > 1 { assert(y[i - 1] == x[i - 1]); } else { lemma_whole_more(y[1], f0.alive_wordlist@, f1.alive_wordlist@, single); } } }
    assert forall|i: int| 0 <= i < y.len() implies resting(#[trigger] y[i], ws, single) by { assert(resting(x[i], ws, single)); if i > 0 { assert(y[i] == x[i]); } }
    assert forall|i: int| 0 < i < y.len() implies (#[trigger] y[i]).word_index <= y[i - 1].alive_wordlist@.len() by { assert(y[i] == x[i]); if i > 1 { assert(y[i - 1] == x[i - 1]); } }
    assert(patterns(y) =~= es) by { assert forall|i: int| 0 <= i < y.len() implies (#[trigger] patterns(y)[i]) == es[i] by { if i > 0 { assert(y[i] == x[i]); } } }
    assert(es[0] == f0.phrase_matcher.expression);
    lemma_none_matches(es, ws, lo, f0.word_index as int, f1.word_index as int);
}
""")
    m.impl("impl<'word> QueryEvaluator<'word>", {
        "next_within_deadline": Fn(
            sig="""    requires old(self).word_inv(), old(self).results_count < usize::MAX, old(self).single() || old(self).phrases_sound()
    ensures final(clock_).now() >= old(clock_).now(), final(self).results_limit == old(self).results_limit, final(self).search_depth_limit == old(self).search_depth_limit,
        old(self).limited() ==> r is Complete && final(self).phase is Done && final(self).results_count == old(self).results_count,
        !old(self).limited() ==> match r {
            QueryResponse::Match(v) => old(self).goes_on(*final(self)) && final(self).position() > old(self).position() && final(self).results_count == old(self).results_count + 1 && v@.len() == 1 && same_text(v@[0], *old(self).list()[final(self).position() - 1])
                && all_find(patterns(old(self).ms()), old(self).list()[final(self).position() - 1].chars@) && none_matches(patterns(old(self).ms()), old(self).list(), old(self).position(), final(self).position() - 1),
            QueryResponse::Timeout => old(self).goes_on(*final(self)) && past(*final(clock_), deadline) && final(self).results_count == old(self).results_count && none_matches(patterns(old(self).ms()), old(self).list(), old(self).position(), final(self).position()),
            QueryResponse::Complete(_) => final(self).phase is Done && final(self).results_count == old(self).results_count && none_matches(patterns(old(self).ms()), old(self).list(), old(self).position(), old(self).list().len() as int)
                && (!old(self).single() ==> forall|c: Seq<int>| !#[trigger] phrase(patterns(old(self).ms()), old(self).list(), old(self).search_depth_limit as int, c)),
            QueryResponse::Logs(_) => !old(self).single() && final(self).begun(patterns(old(self).ms()), old(self).list(), old(self).search_depth_limit as int) && final(self).results_count == old(self).results_count && none_matches(patterns(old(self).ms()), old(self).list(), old(self).position(), old(self).list().len() as int),
        }""",
            start="        let ghost es = patterns(self.ms()); let ghost ws = self.list(); let ghost lo = self.position(); let ghost single = self.single(); let ghost wl0 = self.phase->Word_wordlist; let ghost count0 = self.results_count; let ghost ms0 = self.ms(); proof { reveal(none_matches); }",
            at=[("wordlist = &matcher.alive_wordlist;", "before", "                        proof { lemma_caught_up(f0, m1, rem0, done, ws, single, prev_, *matcher, es, word, last_word, am_); }"),
                ("let step_ = it_.next();", "after", """                            proof {
                                lemma_advance(m0_, at_, *it_.word_matcher, prev_, single);
                                if step_ is None { lemma_last_of(e_, prev_, m0_.word_index as int, at_.word_index as int, it_.word_matcher.word_index as int, last_); } else { assert(none_found(e_, prev_, it_.word_matcher.word_index as int, it_.word_matcher.word_index as int)) by { reveal(none_found); } assert(prev_[it_.word_matcher.word_index - 1] == step_->0); }
                            }"""),
                ("if late(deadline, clock_)", "before", "                proof { lemma_no_more(f0, remaining_matchers@, first_matcher@[0], es, ws, single, lo); assert(seq![first_matcher@[0]] + remaining_matchers@ =~= first_matcher@ + remaining_matchers@); }"),
                ("if all_match", "before", "                    proof { lemma_all_done(f0, m1, rem0, done, ws, single, es); lemma_none_matches(es, ws, lo, p0, hit); if !all_match { lemma_none_matches_one(es, ws, lo, hit); } assert(seq![first_matcher@[0]] + remaining_matchers@ =~= first_matcher@ + remaining_matchers@); }"),
            ],
            rules=[("deadline.is_some() && Some(Instant::now()) > deadline", "late(deadline, clock_)", CLOCK), ("deadline: Option<Instant>", "deadline: Option<Instant>, clock_: &mut Clock", CLOCK),
                   ("format!($x)", "text_()", TEXT), ('$l.to_string()', "text_()", TEXT),
                   ("let mut log_messages = vec![]; $z QueryResponse::Logs(log_messages)", "self.prepare_()", PREPARE),
                   ("$iy.iter($a, $b, None).last()", "{ let mut it_ = $iy.iter($a.as_slice(), $b, None); let mut last_ = None; loop { let step_ = it_.next(); match step_ { Some(word_) => { last_ = Some(word_); } None => { break; } } } last_ }", LAST),
                   ("matchers.split_at_mut($k)", "split_mut(matchers, $k)", SPLIT),
                   ("($a == Some(word))", "same_words($a, Some(word))", SAME),
                   ("vec![word.clone()]", "one_word(word)", ONE),
                   ("for matcher in remaining_matchers.iter_mut() {", "let mut rest_ = &mut *remaining_matchers; while let Some((matcher, tail_)) = next_mut(rest_) { rest_ = tail_; ", NEXT),
                   ("next_single_word(*wordlist, single_word_only, deadline)", "next_single_word(*wordlist, single_word_only, deadline, clock_)", CLOCK),
                   ("QueryPhase::Phrase { $y } => { $z }", "QueryPhase::Phrase { .. } => { never_() }", OTHER),
                   ],
            attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
            loops=[
                Loop("""                invariant_except_break f0 == first_matcher@[0],
                invariant self.results_count == count0, *wordlist == wl0, first_matcher@.len() == 1, final(first_matcher)@ == ff_, final(remaining_matchers)@ == fr_,
                    clock_.now() >= old(clock_).now(), ws == wl0.words(), lo <= f0.word_index <= ws.len(), patterns(seq![f0] + remaining_matchers@) == es, linked(seq![f0] + remaining_matchers@, ws, single), resting(f0, ws, single), none_matches(es, ws, lo, f0.word_index as int),
                ensures f0.advanced(first_matcher@[0], ws, single), first_matcher@[0].ready(ws, single), none_found(f0.phrase_matcher.expression, ws, f0.word_index as int, first_matcher@[0].word_index as int), first_matcher@[0].word_index == ws.len() || past(*clock_, deadline)
                decreases ws.len() - first_matcher@[0].word_index""",
                before="""                let ghost ff_ = final(first_matcher)@; let ghost fr_ = final(remaining_matchers)@; 
                proof { assert(seq![first_matcher@[0]] + remaining_matchers@ =~= ms0); lemma_start(seq![first_matcher@[0]], remaining_matchers@, ws, single); assert(ws =~= wl0.words()); }
                let ghost mut f0 = first_matcher@[0];""",
                start="""                    let ghost rem0 = remaining_matchers@; let ghost m1 = first_matcher@[0]; let ghost w = word.chars@; let ghost p0 = f0.word_index as int; let ghost hit = m1.word_index - 1;
                    proof { lemma_found(f0, rem0, m1, es, ws, single, hit); }""",
                end="""                    proof { f0 = first_matcher@[0]; }"""),
                Loop("""                    invariant k_ + rest_@.len() == rem0.len(), rest_@ == rem0.skip(k_), k_ == done.len(), fin_ == done + final(rest_)@, among(wordlist@, ws),
                        linking(f0, m1, rem0, done, ws, single), wordlist@ == (if k_ == 0 { m1 } else { done[k_ - 1] }).alive_wordlist@,
                        all_match == all_find(es.take(k_ + 1), w), all_match ==> wordlist@.len() > (if k_ == 0 { f0 } else { rem0[k_ - 1] }).alive_wordlist@.len() && wordlist@.last() == word,
                    ensures done.len() == rem0.len(), fin_ == done
                    decreases rest_@.len()""",
                    before="""                    let ghost mut k_ = 0int; let ghost mut done = Seq::<WordMatcher>::empty(); let ghost fin_ = final(rest_)@;""",
                    start="""                        let ghost m0_ = *matcher; let ghost prev_ = wordlist@; let ghost e_ = m0_.phrase_matcher.expression; let ghost am_ = all_match;
                        proof { lemma_turn(f0, m1, rem0, done, ws, single, prev_); assert(m0_ == rem0[k_]); }""",
                    end="""                        proof { done = done.push(*matcher); k_ = k_ + 1; }"""),
                Loop("""                        invariant it_.deadline is None, it_.single_word_only == single, it_.wordlist@ == prev_, it_.word_matcher.ready(prev_, single), m0_.advanced(*it_.word_matcher, prev_, single), *final(it_.word_matcher) == fm_, last_of(e_, prev_, m0_.word_index as int, it_.word_matcher.word_index as int, last_)
                        ensures it_.word_matcher.word_index == prev_.len()
                        decreases prev_.len() - it_.word_matcher.word_index""",
                    before="                        let ghost fm_ = *final(it_.word_matcher); proof { reveal(none_found); }",
                    start="                        let ghost at_ = *it_.word_matcher;")]),
    })
    m.text(r"""
// ---- the search for phrases

#[verifier::external_body]
pub fn copy_of(w: &Word) -> (r: Word) ensures same_text(r, *w) { unimplemented!() }
#[verifier::external_body]
pub fn first_of<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@[0] { v.first() }
#[verifier::external_body]
pub fn greater_of(x: Tranche, y: Tranche) -> (r: Tranche) ensures r == if x >= y { x } else { y } { x.max(y) }

/// The tables of a layer have room for all matchers
#[verifier::opaque]
pub open spec fn roomy(t: BitSet3D, ms: Seq<PhraseMatcher>) -> bool {
    &&& t.size.0 >= 1 && t.size.1 >= 1 && t.size.1 * 32 <= usize::MAX && ms.len() < usize::MAX && (ms.len() * t.size.0) * t.size.1 == t.blocks@.len() && t.blocks@.len() <= usize::MAX && ms.len() * t.size.0 <= usize::MAX && t.size.0 < usize::MAX
    &&& forall|i: int| 0 <= i < ms.len() ==> 1 <= (#[trigger] ms[i]).fuzz_limit <= t.size.0 && 1 <= ms[i].states_len && blocks_for(ms[i].states_len as int) <= t.size.1
}
pub open spec fn of(t: BitSet3D, i: int) -> Seq<u32> { t.row2d(i as usize) }
pub proof fn lemma_roomy(t: BitSet3D, ms: Seq<PhraseMatcher>, i: int)
    requires roomy(t, ms), 0 <= i < ms.len()
    ensures t.fits2d(i as usize), of(t, i).len() == t.size.0 * t.size.1, dims_ref(of(t, i), t.size.1 as int, ms[i].fuzz_limit as int, ms[i].states_len as int),
        0 <= t.size.outer_lo(i as usize), t.size.outer_lo(i as usize) == (t.size.0 * t.size.1) * i, t.size.outer_hi(i as usize) == (t.size.0 * t.size.1) * (i + 1), (t.size.0 * t.size.1) * (i + 1) <= t.blocks@.len(), 0 <= t.size.0 * t.size.1
{
    reveal(roomy);
    let (f, k) = (t.size.0 as int, t.size.1 as int);
    let n = ms.len() as int;
    assert(f * i <= n * f) by (nonlinear_arith) requires i <= n, 0 <= f;
    assert(k * (f * i) == (f * k) * i) by (nonlinear_arith);
    assert(k * (f * i) + f * k == (f * k) * (i + 1)) by (nonlinear_arith);
    assert((f * k) * (i + 1) <= (n * f) * k) by (nonlinear_arith) requires i + 1 <= n, 0 <= f, 0 <= k;
    assert(0 <= (f * k) * i && 0 <= f * k && 0 <= f * i) by (nonlinear_arith) requires 0 <= i, 0 <= f, 0 <= k;
    let b = ms[i].fuzz_limit as int;
    assert(k * b <= f * k) by (nonlinear_arith) requires b <= f, 0 <= k;
}
pub proof fn lemma_roomy_splice(t: BitSet3D, u: BitSet3D, ms: Seq<PhraseMatcher>, i: int, x: Seq<u32>)
    requires roomy(t, ms), 0 <= i < ms.len(), u.size == t.size, u.blocks@ == splice(t.blocks@, t.size.outer_lo(i as usize), x), x.len() == of(t, i).len()
    ensures roomy(u, ms), of(u, i) == x, forall|j: int| 0 <= j < ms.len() && j != i ==> #[trigger] of(u, j) == of(t, j)
{
    lemma_roomy(t, ms, i);
    assert(u.blocks@.len() == t.blocks@.len());
    assert(roomy(u, ms)) by { reveal(roomy); }
    assert(of(u, i) =~= x);
    let w = t.size.0 * t.size.1;
    assert forall|j: int| 0 <= j < ms.len() && j != i implies #[trigger] of(u, j) == of(t, j) by {
        lemma_roomy(t, ms, j);
        if j < i { assert(w * (j + 1) <= w * i) by (nonlinear_arith) requires j + 1 <= i, 0 <= w; } else { assert(w * (i + 1) <= w * j) by (nonlinear_arith) requires i + 1 <= j, 0 <= w; }
        assert(of(u, j) =~= of(t, j));
    }
}
/// The first `n` matchers have been led by the words to what the table says
#[verifier::opaque]
pub open spec fn led(t: BitSet3D, ms: Seq<PhraseMatcher>, c: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < n ==> holds(of(t, i), t.size.1 as int, #[trigger] ms[i], c) }
pub open spec fn placed(ls: Seq<SearchLayer>, l: int) -> Seq<int> { Seq::new((l + 1) as nat, |j: int| ls[j].word_index as int) }
#[verifier::opaque]
pub open spec fn layered(ls: Seq<SearchLayer>, ms: Seq<PhraseMatcher>, wl: Seq<&Word>, l: int) -> bool {
    &&& forall|j: int| 0 <= j < ls.len() ==> roomy((#[trigger] ls[j]).table_matcher_fuzz_dst, ms)
    &&& forall|j: int| 0 <= j <= l ==> led((#[trigger] ls[j]).table_matcher_fuzz_dst, ms, placed(ls, l).take(j), ms.len() as int) && ls[j].max_tranche == rarest(wl, placed(ls, l).take(j + 1))
}
pub open spec fn all_searching(ms: Seq<PhraseMatcher>, n: int) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).searching(n) }
/// Where the search for phrases has got to
#[verifier::opaque]
pub open spec fn searched(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool) -> bool {
    &&& ms.len() >= 1 && wl.len() >= 1 && all_searching(ms, wl.len() as int) && sorted(wl) && queue_ok(wl, q, ls.len() as int)
    &&& 0 <= l < ls.len() && layered(ls, ms, wl, l) && within(placed(ls, l), wl.len() as int)
    &&& q.len() > 0 ==> l < q[0].depth && allowed(wl, q[0].tranche as int, placed(ls, l)) && (!pm ==> none_before(ms, wl, q[0], placed(ls, l)))
}
impl<'word> QueryEvaluator<'word> {
    pub open spec fn pms(self) -> Seq<PhraseMatcher> { self.phase->Phrase_matchers@ }
    pub open spec fn alive(self) -> Seq<&'word Word> { self.phase->Phrase_wordlist@ }
    pub open spec fn queue(self) -> Seq<SearchPhase> { self.phase->search_queue@ }
    pub open spec fn current(self) -> Seq<int> { placed(self.phase->search_layers@, self.phase->layer_index as int) }
    /// While phrases are looked for
    pub open spec fn phrase_inv(self) -> bool {
        self.phase is Phrase && searched(self.pms(), self.alive(), self.queue(), self.phase->search_layers@, self.phase->layer_index as int, self.phase->phase_had_partial_match)
    }
    /// The phrases that remain to be reported
    pub open spec fn outstanding(self, c: Seq<int>) -> bool { all_accept(self.pms(), c) && todo(self.alive(), self.queue(), self.current(), c) }
    #[verifier::opaque]
    pub open spec fn continues(self, next: Self, hit: Option<Seq<int>>) -> bool {
        &&& next.phrase_inv() && next.pms() == self.pms() && next.alive() == self.alive()
        &&& forall|c: Seq<int>| #[trigger] next.outstanding(c) == (self.outstanding(c) && hit != Some(c))
    }
}
/// The words of a phrase
pub open spec fn spelled(v: Seq<Word>, wl: Seq<&Word>, c: Seq<int>) -> bool { v.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> same_text(#[trigger] v[i], *wl[c[i]]) }

/// What a matcher needs to be led by the next word
proof fn lemma_lead(ls: Seq<SearchLayer>, ms: Seq<PhraseMatcher>, wl: Seq<&Word>, l: int, i: int, c: Seq<int>)
    requires layered(ls, ms, wl, l), 0 <= l < ls.len(), within(placed(ls, l), wl.len() as int), all_searching(ms, wl.len() as int), 0 <= i < ms.len(), c == placed(ls, l).take(l)
    ensures roomy(ls[l].table_matcher_fuzz_dst, ms), holds(of(ls[l].table_matcher_fuzz_dst, i), ls[l].table_matcher_fuzz_dst.size.1 as int, ms[i], c),
        forall|f: int, x: int| 0 <= f < ms[i].fuzz_limit && #[trigger] isset(rows(of(ls[l].table_matcher_fuzz_dst, i), ls[l].table_matcher_fuzz_dst.size.1 as int, f), x) ==> x < ms[i].states_len,
        ms[i].ok(), ms[i].word_classes@.len() == wl.len(), ms[i].states_len >= 1, ms[i].fuzz_limit >= 1, 0 <= ls[l].word_index < wl.len(), 0 < ms[i].word_classes@[ls[l].word_index as int] < ms[i].classes.keys().len()
{
    reveal(layered); reveal(led); reveal(holds);
    assert(ms[i].searching(wl.len() as int));
    assert(led(ls[l].table_matcher_fuzz_dst, ms, c, ms.len() as int));
    let s = of(ls[l].table_matcher_fuzz_dst, i);
    let k = ls[l].table_matcher_fuzz_dst.size.1 as int;
    assert(holds(s, k, ms[i], c));
    assert(within(c, wl.len() as int)) by { assert forall|j: int| 0 <= j < c.len() implies 0 <= #[trigger] c[j] < wl.len() by { assert(c[j] == placed(ls, l)[j]); } }
    assert forall|f: int, x: int| 0 <= f < ms[i].fuzz_limit && #[trigger] isset(rows(s, k, f), x) implies x < ms[i].states_len by { assert(ms[i].reaches(c)(f, x)); lemma_reaches_range(ms[i], c, wl.len() as int, f, x); }
    assert(placed(ls, l)[l] == ls[l].word_index);
    reveal(PhraseMatcher::searching);
    let w = ls[l].word_index as int;
    assert(0 < ms[i].word_classes@[w] < ms[i].classes.keys().len());
}
/// A matcher has been led by the next word
proof fn lemma_led(t: BitSet3D, u: BitSet3D, ms: Seq<PhraseMatcher>, c: Seq<int>, w: int, i: int, x0: Seq<u32>, x: Seq<u32>, s: Seq<u32>, k: int)
    requires roomy(t, ms), led(t, ms, c.push(w), i), 0 <= i < ms.len(), u.size == t.size, u.blocks@ == splice(t.blocks@, t.size.outer_lo(i as usize), x), x.len() == x0.len() == of(t, i).len(), x0 == zeros(x0.len()), no_bits(x0),
        holds(s, k, ms[i], c), stepped(ms[i].table(w), ms[i].fuzz_limit as int, s, k, x0, x, t.size.1 as int)
    ensures roomy(u, ms), led(u, ms, c.push(w), i + 1), of(u, i) == x, no_bits(x) ==> !ms[i].viable(c.push(w)),
        (exists|f: int| 0 <= f < ms[i].fuzz_limit && isset(#[trigger] rows(x, t.size.1 as int, f), ms[i].states_len - 1)) == ms[i].accepts(c.push(w))
{
    reveal(holds);
    let l = t.size.1 as int;
    let d = c.push(w);
    lemma_roomy(t, ms, i);
    lemma_roomy_splice(t, u, ms, i, x);
    assert forall|f: int| 0 <= f < ms[i].fuzz_limit implies no_bits(#[trigger] rows(x0, l, f)) by { lemma_rows_fit(x0, l, ms[i].fuzz_limit as int, ms[i].states_len as int, f); lemma_no_bits_part(x0, l * f, l * f + l); }
    lemma_holds(s, k, ms[i], c, w, x0, x, l);
    assert(led(u, ms, d, i + 1)) by {
        reveal(led);
        assert forall|j: int| 0 <= j < i + 1 implies holds(of(u, j), l, #[trigger] ms[j], d) by { if j < i { assert(of(u, j) == of(t, j)); assert(holds(of(t, j), l, ms[j], d)); } }
    }
    if no_bits(x) && ms[i].viable(d) {
        let (f, y) = choose|f: int, y: int| 0 <= f < ms[i].fuzz_limit && #[trigger] ms[i].reaches(d)(f, y);
        assert(isset(rows(x, l, f), y));
        lemma_rows_fit(x, l, ms[i].fuzz_limit as int, ms[i].states_len as int, f);
        lemma_no_bits_part(x, l * f, l * f + l);
    }
    let y = ms[i].states_len - 1;
    if exists|f: int| 0 <= f < ms[i].fuzz_limit && isset(#[trigger] rows(x, l, f), y) {
        let f = choose|f: int| 0 <= f < ms[i].fuzz_limit && isset(#[trigger] rows(x, l, f), y);
        assert(ms[i].reaches(d)(f, ms[i].states_len - 1));
    }
    if ms[i].accepts(d) {
        let f = choose|f: int| 0 <= f < ms[i].fuzz_limit && #[trigger] ms[i].reaches(d)(f, ms[i].states_len - 1);
        assert(isset(rows(x, l, f), y));
    }
}
pub open spec fn accept_upto(ms: Seq<PhraseMatcher>, c: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] ms[i]).accepts(c) }
proof fn lemma_accept_upto(ms: Seq<PhraseMatcher>, c: Seq<int>)
    ensures all_accept(ms, c) == accept_upto(ms, c, ms.len() as int), forall|i: int| 0 <= i < ms.len() && !(#[trigger] ms[i]).viable(c) ==> !all_viable(ms, c)
{ reveal(all_accept); reveal(all_viable); }
/// What is known at the beginning of a step
proof fn lemma_at(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool)
    requires searched(ms, wl, q, ls, l, pm), q.len() > 0
    ensures ms.len() >= 1, wl.len() >= 1, 0 <= l, l + 1 < ls.len(), l < q[0].depth, layered(ls, ms, wl, l), within(placed(ls, l), wl.len() as int), all_searching(ms, wl.len() as int), roomy(ls[l + 1].table_matcher_fuzz_dst, ms),
        placed(ls, l) == placed(ls, l).take(l).push(ls[l].word_index as int), placed(ls, l).len() == l + 1, ms.len() < usize::MAX, led(ls[l + 1].table_matcher_fuzz_dst, ms, placed(ls, l), 0)
{
    reveal(searched); reveal(led);
    assert(roomy(ls[l + 1].table_matcher_fuzz_dst, ms)) by { reveal(layered); }
    reveal(roomy);
    assert(placed(ls, l) =~= placed(ls, l).take(l).push(ls[l].word_index as int));
}
/// What remains to be searched
#[verifier::opaque]
pub open spec fn space(wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int) -> int { if q.len() == 0 { 0 } else { room(placed(ls, l), wl.len() as int, q[0].depth as int) } }
#[verifier::opaque]
pub open spec fn space_after(wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int) -> int { room_after(placed(ls, l), wl.len() as int, q[0].depth as int) }
/// The table of the next layer has been filled
proof fn lemma_filled(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool, ls1: Seq<SearchLayer>)
    requires searched(ms, wl, q, ls, l, pm), q.len() > 0, ls1.len() == ls.len(), forall|j: int| 0 <= j < ls.len() && j != l + 1 ==> #[trigger] ls1[j] == ls[j], roomy(ls1[l + 1].table_matcher_fuzz_dst, ms)
    ensures searched(ms, wl, q, ls1, l, pm), placed(ls1, l) == placed(ls, l), ls1[l].max_tranche == rarest(wl, placed(ls, l)), allowed(wl, q[0].tranche as int, placed(ls, l)), distinct(q), l + 1 <= q[0].depth, !pm ==> none_before(ms, wl, q[0], placed(ls, l)), space(wl, q, ls1, l) == space(wl, q, ls, l)
{
    reveal(searched); reveal(layered); reveal(space);
    assert(placed(ls1, l) =~= placed(ls, l));
    assert forall|j: int| 0 <= j < ls1.len() implies roomy((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms) by { if j != l + 1 { assert(roomy(ls[j].table_matcher_fuzz_dst, ms)); } }
    assert forall|j: int| 0 <= j <= l implies led((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms, placed(ls1, l).take(j), ms.len() as int) && ls1[j].max_tranche == rarest(wl, placed(ls1, l).take(j + 1)) by { assert(ls1[j] == ls[j]); }
    assert(placed(ls, l).take(l + 1) =~= placed(ls, l));
}
/// Down to the next layer
proof fn lemma_down(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool, ls1: Seq<SearchLayer>, q0: Seq<SearchPhase>, cur0: Seq<int>)
    requires searched(ms, wl, q, ls, l, pm), q.len() > 0, l + 1 < q[0].depth, left(ms, wl, q, placed(ls, l), q0, cur0, None), led(ls[l + 1].table_matcher_fuzz_dst, ms, placed(ls, l), ms.len() as int),
        ls1 =~= ls.update(l + 1, SearchLayer { word_index: 0, max_tranche: ls[l].max_tranche, table_matcher_fuzz_dst: ls[l + 1].table_matcher_fuzz_dst })
    ensures searched(ms, wl, q, ls1, l + 1, pm), left(ms, wl, q, placed(ls1, l + 1), q0, cur0, None), 0 <= space(wl, q, ls1, l + 1) < space(wl, q, ls, l)
{
    reveal(searched); reveal(layered); reveal(space);
    let c = placed(ls, l);
    let d = placed(ls1, l + 1);
    assert(d =~= c.push(0));
    lemma_room_down(c, wl.len() as int, q[0].depth as int);
    lemma_descend(ms, wl, q, c, q0, cur0, None, pm);
    assert(tranche_of(wl, 0) <= q[0].tranche);
    assert forall|j: int| 0 <= j <= l implies d.take(j) == #[trigger] c.take(j) && d.take(j + 1) == c.take(j + 1) by { assert(d.take(j) =~= c.take(j)); assert(d.take(j + 1) =~= c.take(j + 1)); }
    assert(d.take(l + 1) =~= c); assert(c.take(l + 1) =~= c); assert(d.take(l + 2) =~= d); assert(d.drop_last() =~= c);
    lemma_rarest_at_least(wl, c);
    assert forall|j: int| 0 <= j <= l + 1 implies led((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms, d.take(j), ms.len() as int) && ls1[j].max_tranche == rarest(wl, d.take(j + 1)) by { if j <= l { assert(ls1[j] == ls[j]); assert(c.take(j) == d.take(j)); } }
    assert forall|j: int| 0 <= j < ls1.len() implies roomy((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms) by { if j != l + 1 { assert(ls1[j] == ls[j]); } else { assert(roomy(ls[j].table_matcher_fuzz_dst, ms)); } }
    assert forall|j: int| 0 <= j < d.len() implies 0 <= #[trigger] d[j] < wl.len() && tranche_of(wl, d[j]) <= q[0].tranche by { if j <= l { assert(d[j] == c[j]); } }
}
proof fn lemma_rarest_at_least(wl: Seq<&Word>, c: Seq<int>)
    requires within(c, wl.len() as int), sorted(wl), c.len() >= 1
    ensures rarest(wl, c) >= tranche_of(wl, 0)
{ assert(0 <= c[c.len() - 1] < wl.len()); assert(tranche_of(wl, 0) <= tranche_of(wl, c.last())); }
/// All that begins with the current words has been tried
#[verifier::opaque]
pub open spec fn tried(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool) -> bool {
    &&& ms.len() >= 1 && wl.len() >= 1 && all_searching(ms, wl.len() as int) && sorted(wl) && queue_ok(wl, q, ls.len() as int)
    &&& 0 <= l < ls.len() && layered(ls, ms, wl, l) && within(placed(ls, l), wl.len() as int)
    &&& q.len() > 0 && l < q[0].depth && allowed(wl, q[0].tranche as int, placed(ls, l)) && (!pm ==> none_beyond(ms, wl, q[0], placed(ls, l)))
}
proof fn lemma_now_tried(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm0: bool, pm: bool, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>)
    requires searched(ms, wl, q, ls, l, pm0), q.len() > 0, left(ms, wl, q, placed(ls, l), q0, cur0, None),
        l + 1 < q[0].depth ==> !all_viable(ms, placed(ls, l)) && hit is None,
        l + 1 == q[0].depth ==> hit == (if all_accept(ms, placed(ls, l)) && rarest(wl, placed(ls, l)) == q[0].tranche { Some(placed(ls, l)) } else { None }), !pm ==> !pm0 && !all_viable(ms, placed(ls, l))
    ensures tried(ms, wl, q, ls, l, pm), left_after(ms, wl, q, placed(ls, l), q0, cur0, hit), hit is Some ==> todo(wl, q0, cur0, hit->0) && all_accept(ms, hit->0), 0 <= space_after(wl, q, ls, l) < space(wl, q, ls, l)
{
    reveal(searched); reveal(tried); reveal(space); reveal(space_after);
    lemma_room_after(placed(ls, l), wl.len() as int, q[0].depth as int);
    lemma_tried(ms, wl, q, placed(ls, l), q0, cur0, hit, pm0, pm);
}
proof fn lemma_tried_at(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool)
    requires tried(ms, wl, q, ls, l, pm)
    ensures 0 <= l < ls.len(), q.len() > 0, wl.len() >= 1, 0 <= ls[l].word_index < wl.len()
{ reveal(tried); assert(placed(ls, l)[l] == ls[l].word_index); }
/// To the next word
proof fn lemma_across(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool, ls1: Seq<SearchLayer>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>)
    requires tried(ms, wl, q, ls, l, pm), left_after(ms, wl, q, placed(ls, l), q0, cur0, hit), ls[l].word_index + 1 < wl.len() <= usize::MAX, tranche_of(wl, ls[l].word_index + 1) <= q[0].tranche,
        ls1 =~= ls.update(l, SearchLayer { word_index: (ls[l].word_index + 1) as usize, max_tranche: ls1[l].max_tranche, table_matcher_fuzz_dst: ls[l].table_matcher_fuzz_dst }),
        ls1[l].max_tranche == (if ls[l].max_tranche >= tranche_of(wl, ls[l].word_index + 1) { ls[l].max_tranche as int } else { tranche_of(wl, ls[l].word_index + 1) })
    ensures searched(ms, wl, q, ls1, l, pm), left(ms, wl, q, placed(ls1, l), q0, cur0, hit), space(wl, q, ls1, l) == space_after(wl, q, ls, l)
{
    reveal(searched); reveal(tried); reveal(layered); reveal(space); reveal(space_after);
    lemma_room_next(placed(ls, l), wl.len() as int, q[0].depth as int);
    let b = placed(ls, l);
    let d = placed(ls1, l);
    assert(d =~= b.drop_last().push(b.last() + 1));
    lemma_next_word(ms, wl, q, b, q0, cur0, hit, pm);
    assert(b[l] == ls[l].word_index);
    assert forall|j: int| 0 <= j < l implies d.take(j) == #[trigger] b.take(j) && d.take(j + 1) == b.take(j + 1) by { assert(d.take(j) =~= b.take(j)); assert(d.take(j + 1) =~= b.take(j + 1)); }
    assert(d.take(l) =~= b.take(l)); assert(d.take(l + 1) =~= d); assert(b.take(l + 1) =~= b); assert(d.drop_last() =~= b.drop_last());
    assert(tranche_of(wl, b[l]) <= tranche_of(wl, b[l] + 1));
    assert forall|j: int| 0 <= j <= l implies led((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms, d.take(j), ms.len() as int) && ls1[j].max_tranche == rarest(wl, d.take(j + 1)) by {
        assert(led(ls[j].table_matcher_fuzz_dst, ms, b.take(j), ms.len() as int) && ls[j].max_tranche == rarest(wl, b.take(j + 1)));
        if j < l { assert(ls1[j] == ls[j]); }
    }
    assert forall|j: int| 0 <= j < ls1.len() implies roomy((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms) by { assert(roomy(ls[j].table_matcher_fuzz_dst, ms)); if j != l { assert(ls1[j] == ls[j]); } }
    assert forall|j: int| 0 <= j < d.len() implies 0 <= #[trigger] d[j] < wl.len() && tranche_of(wl, d[j]) <= q[0].tranche by { if j < l { assert(d[j] == b[j]); } }
}
/// Back to the layer before
proof fn lemma_back(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, l: int, pm: bool, ls1: Seq<SearchLayer>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>)
    requires tried(ms, wl, q, ls, l, pm), left_after(ms, wl, q, placed(ls, l), q0, cur0, hit), ls[l].word_index + 1 >= wl.len() || tranche_of(wl, ls[l].word_index + 1) > q[0].tranche,
        ls1 =~= ls.update(l, SearchLayer { word_index: (ls[l].word_index + 1) as usize, max_tranche: ls[l].max_tranche, table_matcher_fuzz_dst: ls[l].table_matcher_fuzz_dst })
    ensures l > 0 ==> tried(ms, wl, q, ls1, l - 1, pm) && left_after(ms, wl, q, placed(ls1, l - 1), q0, cur0, hit) && 0 <= space_after(wl, q, ls1, l - 1) <= space_after(wl, q, ls, l),
        l == 0 ==> left_after(ms, wl, q, Seq::<int>::empty(), q0, cur0, hit) && (!pm ==> none_beyond(ms, wl, q[0], Seq::<int>::empty()))
{
    reveal(tried); reveal(layered); reveal(space_after);
    let b = placed(ls, l);
    assert(b[l] == ls[l].word_index);
    if l > 0 { lemma_room_back(b, wl.len() as int, q[0].depth as int); assert(within(b.drop_last(), wl.len() as int)); lemma_room_after(b.drop_last(), wl.len() as int, q[0].depth as int); }
    lemma_ascend(ms, wl, q, b, q0, cur0, hit, pm);
    if l > 0 {
        let d = placed(ls1, l - 1);
        assert(d =~= b.drop_last());
        assert forall|j: int| 0 <= j < l implies d.take(j) == #[trigger] b.take(j) && d.take(j + 1) == b.take(j + 1) by { assert(d.take(j) =~= b.take(j)); assert(d.take(j + 1) =~= b.take(j + 1)); }
        assert forall|j: int| 0 <= j <= l - 1 implies led((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms, d.take(j), ms.len() as int) && ls1[j].max_tranche == rarest(wl, d.take(j + 1)) by {
            assert(led(ls[j].table_matcher_fuzz_dst, ms, b.take(j), ms.len() as int) && ls[j].max_tranche == rarest(wl, b.take(j + 1)));
            assert(ls1[j] == ls[j]); assert(d.take(j) == b.take(j));
        }
        assert forall|j: int| 0 <= j < ls1.len() implies roomy((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms) by { assert(roomy(ls[j].table_matcher_fuzz_dst, ms)); if j != l { assert(ls1[j] == ls[j]); } }
        assert forall|j: int| 0 <= j < d.len() implies 0 <= #[trigger] d[j] < wl.len() && tranche_of(wl, d[j]) <= q[0].tranche by { assert(d[j] == b[j]); }
    } else { assert(b.drop_last() =~= Seq::<int>::empty()); }
}
pub open spec fn stays(p: SearchPhase) -> spec_fn(SearchPhase) -> bool { |x: SearchPhase| x.tranche > p.tranche || x.depth < p.depth }
proof fn lemma_stays(q: Seq<SearchPhase>, p: SearchPhase, wl: Seq<&Word>, n: int)
    requires queue_ok(wl, q, n)
    ensures queue_ok(wl, q.filter(stays(p)), n), part(q, q.filter(stays(p)), p)
    decreases q.len()
{
    reveal(Seq::filter); reveal(part);
    let d = q.drop_last();
    let f = q.filter(stays(p));
    if q.len() > 0 {
        let g = d.filter(stays(p));
        lemma_stays(d, p, wl, n);
        assert forall|i: int| 0 <= i < g.len() implies d.contains(#[trigger] g[i]) by {}
        assert forall|i: int| 0 <= i < f.len() implies q.contains(#[trigger] f[i]) by {
            if i < g.len() { assert(f[i] == g[i]); assert(d.contains(g[i])); let k = choose|k: int| 0 <= k < d.len() && d[k] == g[i]; assert(q[k] == f[i]); } else { assert(q[q.len() - 1] == f[i]); }
        }
        assert forall|i: int| 0 <= i < q.len() && ((#[trigger] q[i]).tranche > p.tranche || q[i].depth < p.depth) implies f.contains(q[i]) by {
            if i < d.len() { assert(d[i] == q[i]); assert(g.contains(d[i])); let k = choose|k: int| 0 <= k < g.len() && g[k] == d[i]; assert(f[k] == q[i]); } else { assert(f[f.len() - 1] == q[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies #[trigger] f[i].depth != (#[trigger] f[j]).depth || f[i].tranche != f[j].tranche by {
            assert(f[i] == g[i]);
            if j < g.len() { assert(f[j] == g[j]); } else { let k = choose|k: int| 0 <= k < d.len() && d[k] == g[i]; assert(q[k] == g[i]); assert(f[j] == q[q.len() - 1]); }
        }
        assert forall|i: int| 0 <= i < f.len() implies 2 <= (#[trigger] f[i]).depth < n && tranche_of(wl, 0) <= f[i].tranche by { let k = choose|k: int| 0 <= k < q.len() && q[k] == f[i]; assert(2 <= q[k].depth < n); }
    }
}
proof fn lemma_filter_shorter<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    ensures s.filter(p).len() <= s.len()
    decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lemma_filter_shorter(s.drop_last(), p); } }
/// On to the next phase
proof fn lemma_on(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>, pm: bool, q2: Seq<SearchPhase>, ls1: Seq<SearchLayer>, q0: Seq<SearchPhase>, cur0: Seq<int>, hit: Option<Seq<int>>)
    requires tried(ms, wl, q, ls, 0, pm), left_after(ms, wl, q, Seq::<int>::empty(), q0, cur0, hit), !pm ==> none_beyond(ms, wl, q[0], Seq::<int>::empty()),
        q2 == (if pm { q.skip(1) } else { q.skip(1).filter(stays(q[0])) }),
        ls1 =~= ls.update(0, SearchLayer { word_index: 0, max_tranche: wl[0].tranche, table_matcher_fuzz_dst: ls[0].table_matcher_fuzz_dst })
    ensures searched(ms, wl, q2, ls1, 0, false), left(ms, wl, q2, placed(ls1, 0), q0, cur0, hit), q2.len() < q.len()
{
    reveal(tried); reveal(searched); reveal(layered);
    let q1 = q.skip(1);
    let n = ls.len() as int;
    assert(queue_ok(wl, q1, n)) by {
        assert forall|i: int, j: int| 0 <= i < j < q1.len() implies #[trigger] q1[i].depth != (#[trigger] q1[j]).depth || q1[i].tranche != q1[j].tranche by { assert(q1[i] == q[i + 1] && q1[j] == q[j + 1]); }
        assert forall|i: int| 0 <= i < q1.len() implies 2 <= (#[trigger] q1[i]).depth < n && tranche_of(wl, 0) <= q1[i].tranche by { assert(q1[i] == q[i + 1]); }
    }
    lemma_stays(q1, q[0], wl, n);
    lemma_filter_shorter(q1, stays(q[0]));
    lemma_phase_end(ms, wl, q, q2, q0, cur0, hit, pm);
    let d = placed(ls1, 0);
    assert(d =~= seq![0int]);
    assert(d.take(0) =~= placed(ls, 0).take(0)); assert(d.take(1) =~= d); assert(d.drop_last() =~= Seq::<int>::empty());
    assert(rarest(wl, d.drop_last()) == 0);
    assert(ls1[0].max_tranche == rarest(wl, d));
    assert(led(ls[0].table_matcher_fuzz_dst, ms, placed(ls, 0).take(0), ms.len() as int));
    assert forall|j: int| 0 <= j < ls1.len() implies roomy((#[trigger] ls1[j]).table_matcher_fuzz_dst, ms) by { assert(roomy(ls[j].table_matcher_fuzz_dst, ms)); if j != 0 { assert(ls1[j] == ls[j]); } }
}
proof fn lemma_continues<'a>(me: QueryEvaluator<'a>, next: QueryEvaluator<'a>, hit: Option<Seq<int>>)
    requires next.phrase_inv(), next.pms() == me.pms(), next.alive() == me.alive(), left(me.pms(), me.alive(), next.queue(), next.current(), me.queue(), me.current(), hit)
    ensures me.continues(next, hit)
{ reveal(left); reveal(QueryEvaluator::continues); }
proof fn lemma_finished(ms: Seq<PhraseMatcher>, wl: Seq<&Word>, q: Seq<SearchPhase>, cur: Seq<int>, q0: Seq<SearchPhase>, cur0: Seq<int>)
    requires left(ms, wl, q, cur, q0, cur0, None), q.len() == 0
    ensures forall|c: Seq<int>| #[trigger] all_accept(ms, c) ==> !todo(wl, q0, cur0, c)
{ reveal(left); }
proof fn lemma_no_bits_part(s: Seq<u32>, lo: int, hi: int)
    requires no_bits(s), 0 <= lo <= hi <= s.len()
    ensures no_bits(s.subrange(lo, hi))
{
    let t = s.subrange(lo, hi);
    assert forall|i: int| !isset(t, i) by {
        if 0 <= i && i / 32 < t.len() { assert(t[i / 32] == s[lo + i / 32]); assert((i + 32 * lo) / 32 == lo + i / 32 && (i + 32 * lo) % 32 == i % 32); assert(!isset(s, i + 32 * lo)); }
    }
}
""")
    PHRASES = Fn(
        sig="""    requires old(self).phrase_inv(), old(self).results_count < usize::MAX
    ensures final(clock_).now() >= old(clock_).now(), final(self).results_limit == old(self).results_limit, final(self).search_depth_limit == old(self).search_depth_limit,
        old(self).limited() ==> r is Complete && final(self).phase is Done && final(self).results_count == old(self).results_count,
        !old(self).limited() ==> match r {
            QueryResponse::Match(v) => final(self).results_count == old(self).results_count + 1 && exists|c: Seq<int>| #[trigger] old(self).outstanding(c) && spelled(v@, old(self).alive(), c) && old(self).continues(*final(self), Some(c)),
            QueryResponse::Timeout => final(self).results_count == old(self).results_count && past(*final(clock_), deadline) && old(self).continues(*final(self), None),
            QueryResponse::Complete(_) => final(self).results_count == old(self).results_count && final(self).phase is Done && forall|c: Seq<int>| !#[trigger] old(self).outstanding(c),
            QueryResponse::Logs(_) => false,
        }""",
        rules=[("fn next_within_deadline(", "fn next_within_deadline_phrases(", "the function is verified for both phases in turn"),
               ("deadline.is_some() && Some(Instant::now()) > deadline", "late(deadline, clock_)", CLOCK), ("deadline: Option<Instant>", "deadline: Option<Instant>, clock_: &mut Clock", CLOCK),
               ("format!($x)", "text_()", TEXT), ('$l.to_string()', "text_()", TEXT),
               ("QueryPhase::Word { matchers, wordlist } => { $z }", "QueryPhase::Word { .. } => { never_() }", OTHER),
               ("search_queue.first()", "first_of(search_queue)", FIRST),
               ("search_layers.split_at_mut($k)", "split_mut(search_layers, $k)", SPLIT),
               ("for ($im, $is) in matchers.iter().enumerate() { $z }", "let mut n_: usize = 0; while n_ < matchers.len() { let $im = n_; let $is = &matchers[n_]; n_ += 1; $z }", EACH),
               ("$rv[0..=$a].iter().map(|$ix| $f.clone()).collect()", "{ let mut out_: Vec<Word> = Vec::new(); let end_ = $a; let mut k_: usize = 0; while k_ <= end_ { let $ix = &$rv[k_]; out_.push(copy_of($f)); k_ += 1; } out_ }", LAST),
               ("let mut result = None;", "let mut result: Option<QueryResponse> = None;", "a type is annotated"),
               ("(*max_tranche).max($x)", "greater_of(*max_tranche, $x)", MAX),
               ("search_queue.retain(|$ip| { $e });", "{ let mut k_: usize = 0; while k_ < search_queue.len() { let keep_ = { let $ip = &search_queue[k_]; $e }; if keep_ { k_ += 1; } else { search_queue.remove(k_); } } }", RETAIN),
               ],
        attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(120)]",
        start="""        proof { if self.phase is Phrase { assert(self.alive().len() >= 1) by { reveal(searched); } } } let ghost me0 = *self; let ghost ms = self.pms(); let ghost wl = self.alive(); let ghost q0 = self.queue(); let ghost cur0 = self.current(); let ghost count0 = self.results_count;""",
        at=[("let (lower_layers, upper_layers)", "before", "                    let ghost q = search_queue@; let ghost ls0 = search_layers@; let ghost l0 = *layer_index as int; let ghost cur = placed(ls0, l0); let ghost c0 = cur.take(l0); let ghost pm0 = *phase_had_partial_match; proof { lemma_at(ms, wl, q, ls0, l0, pm0); }"),
            ("next_table_fuzz_dst.clear();", "after", "                        let ghost x0_ = next_table_fuzz_dst.blocks@; let ghost x_ = final(next_table_fuzz_dst.blocks)@;"),
            ("if next_table_fuzz_dst.is_empty()", "before", "                        proof { lemma_led(nt_, next_layer.table_matcher_fuzz_dst, ms, c0, word_index as int, m as int, x0_, x_, prev_table_fuzz_dst.blocks@, prev_table_fuzz_dst.size as int); nt_ = next_layer.table_matcher_fuzz_dst; }"),
            ("return QueryResponse::Complete(text_());\n                        }\n                    };", "before", "                            proof { lemma_finished(ms, wl, search_queue@, placed(search_layers@, *layer_index as int), q0, cur0); }"),
            ("result = Some(", "before", "                        proof { hit = Some(cur); }"),
            ("search_layers[*layer_index - 1].max_tranche;", "after", "                        proof { lemma_down(ms, wl, q, ls1, l0, pm0, search_layers@, q0, cur0); }"),
            ("let word_index = search_layers[*layer_index].word_index;", "before", "                            let ghost lx_ = search_layers@;"),
            ("if *layer_index == 0", "before", "                                proof { lemma_back(ms, wl, q, la_, l_, pm, lx_, q0, cur0, hit); }"),
            ("search_layers[*layer_index].max_tranche = wordlist[0].tranche;", "after", "                                    proof { lemma_on(ms, wl, q, la_, pm, search_queue@, search_layers@, q0, cur0, hit); }"),
            ("*max_tranche = greater_of(*max_tranche, wordlist[word_index].tranche);", "after", "                            proof { lemma_across(ms, wl, q, la_, l_, pm, search_layers@, q0, cur0, hit); }"),
            ("return QueryResponse::Timeout;", "before", "                        proof { lemma_continues(me0, *self, None); }"),
            ("result.unwrap()", "before", "                proof { assert(me0.outstanding(hit->0)); lemma_continues(me0, *self, hit); }"),
        ],
        loops=[
            Loop("""                    invariant_except_break result is None, hit is None, self.results_count == count0
                    invariant matchers@ == ms, wordlist@ == wl, after_borrow(self.phase) == ph_,
                        searched(ms, wl, search_queue@, search_layers@, *layer_index as int, *phase_had_partial_match), clock_.now() >= old(clock_).now(),
                        left(ms, wl, search_queue@, placed(search_layers@, *layer_index as int), q0, cur0, hit),
                        final(search_queue)@ == fq_, final(search_layers)@ == fl_, *final(layer_index) == fi_, *final(phase_had_partial_match) == fp_,
                    ensures result is Some, hit is Some, result->0 is Match, spelled(result->0->Match_0@, wl, hit->0), todo(wl, q0, cur0, hit->0), all_accept(ms, hit->0), self.results_count == count0 + 1
                    decreases search_queue@.len(), space(wl, search_queue@, search_layers@, *layer_index as int)""",
                before="                let ghost mut hit: Option<Seq<int>> = None; let ghost fq_ = final(search_queue)@; let ghost fl_ = final(search_layers)@; let ghost fi_ = *final(layer_index); let ghost fp_ = *final(phase_had_partial_match); let ghost ph_ = after_borrow(self.phase); proof { lemma_left(ms, wl, q0, cur0); }"),
            Loop("""                        invariant_except_break all_partial_match, led(nt_, ms, cur, n_ as int), all_exact_match == accept_upto(ms, cur, n_ as int)
                        invariant n_ <= ms.len(), roomy(next_layer.table_matcher_fuzz_dst, ms), nt_ == next_layer.table_matcher_fuzz_dst, *final(next_layer) == fn_,
                            next_layer.word_index == ls0[l0 + 1].word_index,
                        ensures all_partial_match ==> led(nt_, ms, cur, ms.len() as int) && all_exact_match == all_accept(ms, cur), !all_partial_match ==> !all_exact_match && !all_viable(ms, cur)
                        decreases ms.len() - n_""",
                start="                        proof { lemma_lead(ls0, ms, wl, l0, n_ as int, c0); lemma_roomy(nt_, ms, n_ as int); lemma_roomy(ls0[l0].table_matcher_fuzz_dst, ms, n_ as int); }",
                before="                    let ghost fn_ = *final(next_layer); let ghost mut nt_ = next_layer.table_matcher_fuzz_dst; proof { lemma_accept_upto(ms, cur); }",
                after="                    let ghost ls1 = search_layers@; proof { lemma_filled(ms, wl, q, ls0, l0, pm0, ls1); }"),
            Loop("""                            invariant k_ <= l0 + 1, end_ == l0, out_@.len() == k_, forall|i: int| 0 <= i < k_ ==> same_text(#[trigger] out_@[i], *wl[cur[i]])
                            decreases end_ + 1 - k_""", start="                            proof { assert(placed(ls1, l0)[k_ as int] == ls1[k_ as int].word_index); }"),
            Loop("""                            invariant_except_break 0 <= space_after(wl, q, search_layers@, *layer_index as int) < space(wl, q, ls0, l0), search_queue@ == q, *search_phase == q[0], *layer_index <= l0, tried(ms, wl, q, search_layers@, *layer_index as int, *phase_had_partial_match), pm == *phase_had_partial_match,
                                left_after(ms, wl, q, placed(search_layers@, *layer_index as int), q0, cur0, hit)
                            invariant final(search_queue)@ == fq_, final(search_layers)@ == fl_, *final(layer_index) == fi_, *final(phase_had_partial_match) == fp_
                            ensures searched(ms, wl, search_queue@, search_layers@, *layer_index as int, *phase_had_partial_match), left(ms, wl, search_queue@, placed(search_layers@, *layer_index as int), q0, cur0, hit),
                                search_queue@.len() < q.len() || (search_queue@ == q && 0 <= space(wl, q, search_layers@, *layer_index as int) < space(wl, q, ls0, l0))
                            decreases *layer_index""",
                before="                        let ghost pm = *phase_had_partial_match; proof { lemma_now_tried(ms, wl, q, ls1, l0, pm0, pm, q0, cur0, hit); }",
                start="                            let ghost la_ = search_layers@; let ghost l_ = *layer_index as int; proof { lemma_tried_at(ms, wl, q, la_, l_, pm); assert(wordlist.len() == wl.len()); }"),
            Loop("""                                            invariant k_ <= search_queue@.len(), n_ + search_queue@.len() - k_ == q1_.len(), 0 <= n_, search_queue@ == q1_.take(n_).filter(stays(q[0])) + q1_.skip(n_), k_ == q1_.take(n_).filter(stays(q[0])).len(), final(search_queue)@ == fq_
                                            decreases search_queue@.len() - k_""",
                before="                                            let ghost mut n_ = 0int; let ghost q1_ = search_queue@; proof { assert(q1_.take(0).filter(stays(q[0])) =~= Seq::<SearchPhase>::empty()) by { reveal(Seq::filter); } assert(q1_.skip(0) =~= q1_); }",
                start="                                            proof { assert(q1_.take(n_ + 1) =~= q1_.take(n_).push(q1_[n_])); lemma_filter_push(q1_.take(n_), q1_[n_], stays(q[0])); n_ = n_ + 1; }",
                after="                                            proof { assert(q1_.take(n_) =~= q1_); }"),
        ])
    m.text("impl<'word> QueryEvaluator<'word> {")
    m.fn("next_within_deadline", PHRASES, header="impl<'word> QueryEvaluator<'word>", qual="QueryEvaluator<'word>::next_within_deadline_phrases")
    m.text("}")
    return m
