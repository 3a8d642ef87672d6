"""A search from its beginning to its end"""
from build import Module
from extract import Fn, Loop


def module():
    m = Module("history", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::narrow::*;
use super::query::*;
use super::converge::*;
use super::ready::*;

impl<'word> QueryEvaluator<'word> {
    /// A search that may go on
    pub open spec fn going(self) -> bool { (self.phase is Word ==> self.word_inv() && (self.single() || self.phrases_sound())) && (self.phase is Phrase ==> self.phrase_inv()) }
    pub open spec fn kept(self, r: QueryResponse, next: Self) -> bool { next.results_limit == self.results_limit && next.search_depth_limit == self.search_depth_limit && next.results_count == self.results_count + (if r is Match { 1int } else { 0 }) }
    pub open spec fn word_done(self, r: QueryResponse, next: Self) -> bool {
        match r {
            QueryResponse::Match(v) => self.goes_on(next) && next.position() > self.position() && v@.len() == 1 && same_text(v@[0], *self.list()[next.position() - 1])
                && all_find(patterns(self.ms()), self.list()[next.position() - 1].chars@) && none_matches(patterns(self.ms()), self.list(), self.position(), next.position() - 1),
            QueryResponse::Timeout => self.goes_on(next) && none_matches(patterns(self.ms()), self.list(), self.position(), next.position()),
            QueryResponse::Complete(_) => next.phase is Done && none_matches(patterns(self.ms()), self.list(), self.position(), self.list().len() as int)
                && (!self.single() ==> forall|c: Seq<int>| !#[trigger] phrase(patterns(self.ms()), self.list(), self.search_depth_limit as int, c)),
            QueryResponse::Logs(_) => !self.single() && next.begun(patterns(self.ms()), self.list(), self.search_depth_limit as int) && none_matches(patterns(self.ms()), self.list(), self.position(), self.list().len() as int),
        }
    }
    pub open spec fn phrase_done(self, r: QueryResponse, next: Self) -> bool {
        match r {
            QueryResponse::Match(v) => exists|c: Seq<int>| #[trigger] self.outstanding(c) && spelled(v@, self.alive(), c) && self.continues(next, Some(c)),
            QueryResponse::Timeout => self.continues(next, None),
            QueryResponse::Complete(_) => next.phase is Done && forall|c: Seq<int>| !#[trigger] self.outstanding(c),
            QueryResponse::Logs(_) => false,
        }
    }
    /// What a call does that is not stopped by a limit
    #[verifier::opaque]
    pub open spec fn turned(self, r: QueryResponse, next: Self) -> bool {
        self.kept(r, next) && (self.phase is Word ==> self.word_done(r, next)) && (self.phase is Phrase ==> self.phrase_done(r, next)) && (self.phase is Done ==> r is Complete && next.phase is Done)
    }
}

// ---- what is still to be reported, in terms of the list of words

/// All that is to be reported: the words that all of the patterns match, and the phrases
pub open spec fn wanted(es: Seq<Expression>, ws: Seq<&Word>, limit: int, c: Seq<int>) -> bool {
    (c.len() == 1 && 0 <= c[0] < ws.len() && all_find(es, ws[c[0]].chars@)) || (limit > 1 && phrase(es, ws, limit, c))
}
/// (`m` tells which of the words are left when phrases are looked for)
#[verifier::opaque]
pub open spec fn open(s: QueryEvaluator, m: Seq<int>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, c: Seq<int>) -> bool {
    match s.phase {
        QueryPhase::Word { .. } => wanted(es, ws, limit, c) && (c.len() == 1 ==> c[0] >= s.position()),
        QueryPhase::Phrase { .. } => exists|x: Seq<int>| #[trigger] s.outstanding(x) && c == comp(x, m),
        QueryPhase::Done => false,
    }
}
#[verifier::opaque]
pub open spec fn tied<'a>(s: QueryEvaluator<'a>, m: Seq<int>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int) -> bool {
    &&& s.going() && s.search_depth_limit == limit
    &&& s.phase is Word ==> s.list() == ws && patterns(s.ms()) == es
    &&& s.phase is Phrase ==> chosen(ws, s.alive(), m)
}
/// The response tells what the hit is
pub open spec fn reports(r: QueryResponse, ws: Seq<&Word>, hit: Option<Seq<int>>) -> bool { match r { QueryResponse::Match(v) => hit is Some && within(hit->0, ws.len() as int) && spelled(v@, ws, hit->0), _ => hit is None } }
pub open spec fn is_step<'a>(s: QueryEvaluator<'a>, m: Seq<int>, t: QueryEvaluator<'a>, n: Seq<int>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int, hit: Option<Seq<int>>) -> bool {
    &&& forall|c: Seq<int>| #[trigger] open(t, n, es, ws, limit, c) == (open(s, m, es, ws, limit, c) && hit != Some(c))
    &&& hit is Some ==> open(s, m, es, ws, limit, hit->0)
}
proof fn lemma_comp_one(x: Seq<int>, y: Seq<int>, m: Seq<int>, k: int)
    requires into(m, k), within(x, m.len() as int), within(y, m.len() as int), comp(x, m) == comp(y, m)
    ensures x == y
{
    assert(comp(x, m).len() == x.len() && comp(y, m).len() == y.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
        assert(comp(x, m)[i] == m[x[i]] && comp(y, m)[i] == m[y[i]]);
        assert(0 <= x[i] < m.len() && 0 <= y[i] < m.len());
        if x[i] < y[i] { assert(m[x[i]] < m[y[i]]); } else if y[i] < x[i] { assert(m[y[i]] < m[x[i]]); }
    }
    assert(x =~= y);
}
proof fn lemma_outstanding_within(s: QueryEvaluator, c: Seq<int>)
    requires s.outstanding(c)
    ensures within(c, s.alive().len() as int)
{ let i = choose|i: int| 0 <= i < s.queue().len() && #[trigger] belongs(s.alive(), s.queue()[i], c) && (i == 0 ==> !before(c, s.current())); }
proof fn lemma_none(es: Seq<Expression>, ws: Seq<&Word>, lo: int, hi: int, k: int)
    requires none_matches(es, ws, lo, hi), lo <= k < hi
    ensures !all_find(es, ws[k].chars@)
{ reveal(none_matches); }
proof fn lemma_step_words<'a>(s: QueryEvaluator<'a>, m: Seq<int>, r: QueryResponse, t: QueryEvaluator<'a>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int) -> (x: (Option<Seq<int>>, Seq<int>))
    requires tied(s, m, es, ws, limit), s.turned(r, t), s.phase is Word
    ensures tied(t, x.1, es, ws, limit), is_step(s, m, t, x.1, es, ws, limit, x.0), reports(r, ws, x.0)
{
    reveal(tied); reveal(QueryEvaluator::turned); reveal(open);
    match r {
        QueryResponse::Match(v) => {
            let k = t.position() - 1;
            let hit = seq![k];
            assert(all_transitive(patterns(t.ms())) == all_transitive(patterns(s.ms())));
            assert(t.ms().len() == patterns(t.ms()).len() && s.ms().len() == patterns(s.ms()).len());
            assert(t.word_inv());
            assert(k < ws.len());
            assert forall|c: Seq<int>| #[trigger] open(t, m, es, ws, limit, c) == (open(s, m, es, ws, limit, c) && Some(hit) != Some(c)) by {
                if c.len() == 1 {
                    if c[0] == k { assert(c =~= hit); } else { assert(c[0] != hit[0]); if 0 <= c[0] < ws.len() && s.position() <= c[0] < k { lemma_none(es, ws, s.position(), k, c[0]); } }
                } else { assert(c != hit); }
            }
            assert(open(s, m, es, ws, limit, hit));
            assert(spelled(v@, ws, hit));
            (Some(hit), m)
        }
        QueryResponse::Timeout => {
            assert(t.ms().len() == patterns(t.ms()).len() && s.ms().len() == patterns(s.ms()).len());
            assert forall|c: Seq<int>| #[trigger] open(t, m, es, ws, limit, c) == open(s, m, es, ws, limit, c) by {
                if c.len() == 1 && 0 <= c[0] < ws.len() && s.position() <= c[0] < t.position() { lemma_none(es, ws, s.position(), t.position(), c[0]); }
            }
            (None, m)
        }
        QueryResponse::Complete(_) => {
            assert forall|c: Seq<int>| !#[trigger] open(s, m, es, ws, limit, c) by {
                if c.len() == 1 && 0 <= c[0] < ws.len() && s.position() <= c[0] { lemma_none(es, ws, s.position(), ws.len() as int, c[0]); }
                if limit > 1 { assert(!phrase(es, ws, limit, c)); }
            }
            (None, m)
        }
        QueryResponse::Logs(_) => {
            reveal(QueryEvaluator::begun);
            let n = choose|n: Seq<int>| #[trigger] traced(es, ws, limit, t.alive(), n);
            assert(chosen(ws, t.alive(), n)) by { reveal(traced); }
            assert forall|c: Seq<int>| #[trigger] open(t, n, es, ws, limit, c) == open(s, m, es, ws, limit, c) by {
                if open(s, m, es, ws, limit, c) {
                    if c.len() == 1 && c[0] >= s.position() && 0 <= c[0] < ws.len() { lemma_none(es, ws, s.position(), ws.len() as int, c[0]); }
                    assert(phrase(es, ws, limit, c));
                    let x = lemma_traced(es, ws, limit, t.alive(), n, c);
                    assert(phrase(es, t.alive(), limit, x));
                    assert(t.outstanding(x));
                }
                if open(t, n, es, ws, limit, c) {
                    let x = choose|x: Seq<int>| #[trigger] t.outstanding(x) && c == comp(x, n);
                    assert(phrase(es, t.alive(), limit, x));
                    lemma_phrase_of(ws, t.alive(), n, x);
                    assert(phrase(es, ws, limit, c));
                    assert(wanted(es, ws, limit, c));
                }
            }
            (None, n)
        }
    }
}
proof fn lemma_step_phrases<'a>(s: QueryEvaluator<'a>, m: Seq<int>, r: QueryResponse, t: QueryEvaluator<'a>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int) -> (hit: Option<Seq<int>>)
    requires tied(s, m, es, ws, limit), s.turned(r, t), s.phase is Phrase
    ensures tied(t, m, es, ws, limit), is_step(s, m, t, m, es, ws, limit, hit), reports(r, ws, hit)
{
    reveal(tied); reveal(QueryEvaluator::turned); reveal(open);
    let al = s.alive();
    match r {
        QueryResponse::Match(v) => {
            let y = choose|c: Seq<int>| #[trigger] s.outstanding(c) && spelled(v@, al, c) && s.continues(t, Some(c));
            let hit = comp(y, m);
            reveal(QueryEvaluator::continues);
            lemma_outstanding_within(s, y);
            lemma_phrase_of(ws, al, m, y);
            assert forall|c: Seq<int>| #[trigger] open(t, m, es, ws, limit, c) == (open(s, m, es, ws, limit, c) && Some(hit) != Some(c)) by {
                if open(t, m, es, ws, limit, c) {
                    let x = choose|x: Seq<int>| #[trigger] t.outstanding(x) && c == comp(x, m);
                    assert(s.outstanding(x) && x != y);
                    lemma_outstanding_within(s, x);
                    if c == hit { lemma_comp_one(x, y, m, ws.len() as int); }
                }
                if open(s, m, es, ws, limit, c) && c != hit {
                    let x = choose|x: Seq<int>| #[trigger] s.outstanding(x) && c == comp(x, m);
                    assert(t.outstanding(x) == (s.outstanding(x) && Some(y) != Some(x)));
                    assert(t.outstanding(x));
                }
            }
            assert(open(s, m, es, ws, limit, hit));
            assert forall|i: int| 0 <= i < hit.len() implies same_text(#[trigger] v@[i], *ws[hit[i]]) by { assert(same_text(v@[i], *al[y[i]])); assert(0 <= y[i] < al.len()); assert(same_word(ws[m[y[i]]], al[y[i]])); }
            Some(hit)
        }
        QueryResponse::Timeout => {
            reveal(QueryEvaluator::continues);
            assert forall|c: Seq<int>| #[trigger] open(t, m, es, ws, limit, c) == open(s, m, es, ws, limit, c) by {
                if open(t, m, es, ws, limit, c) { let x = choose|x: Seq<int>| #[trigger] t.outstanding(x) && c == comp(x, m); assert(s.outstanding(x)); }
                if open(s, m, es, ws, limit, c) { let x = choose|x: Seq<int>| #[trigger] s.outstanding(x) && c == comp(x, m); assert(t.outstanding(x) == s.outstanding(x)); assert(t.outstanding(x)); }
            }
            None
        }
        _ => { None }
    }
}
/// One call, whatever the phase
pub proof fn lemma_step<'a>(s: QueryEvaluator<'a>, m: Seq<int>, r: QueryResponse, t: QueryEvaluator<'a>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int) -> (x: (Option<Seq<int>>, Seq<int>))
    requires tied(s, m, es, ws, limit), s.turned(r, t)
    ensures tied(t, x.1, es, ws, limit), is_step(s, m, t, x.1, es, ws, limit, x.0), reports(r, ws, x.0)
{
    match s.phase {
        QueryPhase::Word { .. } => lemma_step_words(s, m, r, t, es, ws, limit),
        QueryPhase::Phrase { .. } => (lemma_step_phrases(s, m, r, t, es, ws, limit), m),
        QueryPhase::Done => { reveal(tied); reveal(QueryEvaluator::turned); reveal(open); (None, m) }
    }
}
proof fn lemma_turned<'a>(s: QueryEvaluator<'a>, r: QueryResponse, t: QueryEvaluator<'a>)
    requires s.going(), !(s.phase is Done), s.limited() ==> t.phase is Done, !s.limited() ==> (s.phase is Word ==> s.word_done(r, t)) && (s.phase is Phrase ==> s.phrase_done(r, t)) && s.kept(r, t)
    ensures t.going(), !s.limited() ==> s.turned(r, t)
{
    if !s.limited() {
        reveal(QueryEvaluator::turned);
        let (es, ws, m) = (patterns(s.ms()), s.list(), Seq::<int>::new(s.alive().len(), |i: int| i));
        if s.phase is Word {
            assert(tied(s, m, es, ws, s.search_depth_limit as int)) by { reveal(tied); }
            let x = lemma_step(s, m, r, t, es, ws, s.search_depth_limit as int);
            assert(t.going()) by { reveal(tied); }
        } else {
            let al = s.alive();
            assert(tied(s, m, es, al, s.search_depth_limit as int)) by { reveal(tied); assert(chosen(al, al, m)); }
            let x = lemma_step(s, m, r, t, es, al, s.search_depth_limit as int);
            assert(t.going()) by { reveal(tied); }
        }
    }
}
/// A sequence of calls
pub open spec fn calls<'a>(ss: Seq<QueryEvaluator<'a>>, rs: Seq<QueryResponse>) -> bool { ss.len() == rs.len() + 1 && forall|i: int| 0 <= i < rs.len() ==> (#[trigger] ss[i]).turned(rs[i], ss[i + 1]) }
/// `hits` are what the responses report: each of it is wanted, and none is reported twice
pub open spec fn told(rs: Seq<QueryResponse>, hits: Seq<Option<Seq<int>>>, es: Seq<Expression>, ws: Seq<&Word>, limit: int) -> bool {
    &&& hits.len() == rs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> reports(#[trigger] rs[i], ws, hits[i])
    &&& forall|i: int| 0 <= i < rs.len() && (#[trigger] hits[i]) is Some ==> wanted(es, ws, limit, hits[i]->0)
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() && (#[trigger] hits[i]) is Some ==> (#[trigger] hits[j]) != hits[i]
}
proof fn lemma_calls<'a>(ss: Seq<QueryEvaluator<'a>>, rs: Seq<QueryResponse>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int) -> (x: (Seq<Option<Seq<int>>>, Seq<int>))
    requires calls(ss, rs), tied(ss[0], Seq::empty(), es, ws, limit), ss[0].phase is Word, ss[0].position() == 0
    ensures told(rs, x.0, es, ws, limit), tied(ss.last(), x.1, es, ws, limit), forall|c: Seq<int>| #[trigger] open(ss.last(), x.1, es, ws, limit, c) == (wanted(es, ws, limit, c) && !x.0.contains(Some(c)))
    decreases rs.len()
{
    if rs.len() == 0 {
        let hits = Seq::<Option<Seq<int>>>::empty();
        assert forall|c: Seq<int>| #[trigger] open(ss.last(), Seq::empty(), es, ws, limit, c) == (wanted(es, ws, limit, c) && !hits.contains(Some(c))) by { reveal(open); assert(!hits.contains(Some(c))); assert(wanted(es, ws, limit, c) && c.len() == 1 ==> c[0] >= 0 || phrase(es, ws, limit, c)); }
        (hits, Seq::empty())
    } else {
        let k = rs.len() - 1;
        let (ss1, rs1) = (ss.drop_last(), rs.drop_last());
        assert(ss1[0] == ss[0]);
        assert forall|i: int| 0 <= i < rs1.len() implies (#[trigger] ss1[i]).turned(rs1[i], ss1[i + 1]) by { assert(ss1[i] == ss[i] && ss1[i + 1] == ss[i + 1]); assert(ss[i].turned(rs[i], ss[i + 1])); }
        let (hits1, m) = lemma_calls(ss1, rs1, es, ws, limit);
        assert(ss1.last() == ss[k]);
        assert(ss[k].turned(rs[k], ss[k + 1]));
        let (hit, n) = lemma_step(ss[k], m, rs[k], ss[k + 1], es, ws, limit);
        let hits = hits1.push(hit);
        assert forall|c: Seq<int>| #[trigger] open(ss.last(), n, es, ws, limit, c) == (wanted(es, ws, limit, c) && !hits.contains(Some(c))) by {
            assert(open(ss[k + 1], n, es, ws, limit, c) == (open(ss[k], m, es, ws, limit, c) && hit != Some(c)));
            assert(open(ss[k], m, es, ws, limit, c) == (wanted(es, ws, limit, c) && !hits1.contains(Some(c))));
            if hits.contains(Some(c)) { let i = choose|i: int| 0 <= i < hits.len() && hits[i] == Some(c); if i < k { assert(hits1[i] == Some(c)); assert(hits1.contains(Some(c))); } }
            if hits1.contains(Some(c)) { let i = choose|i: int| 0 <= i < hits1.len() && hits1[i] == Some(c); assert(hits[i] == Some(c)); }
            if hit == Some(c) { assert(hits[k] == Some(c)); }
        }
        assert forall|i: int| 0 <= i < rs.len() implies reports(#[trigger] rs[i], ws, hits[i]) by { if i < k { assert(reports(rs1[i], ws, hits1[i])); } }
        if hit is Some { let c = hit->0; assert(open(ss[k], m, es, ws, limit, c)); assert(wanted(es, ws, limit, c) && !hits1.contains(Some(c))); }
        assert forall|i: int| 0 <= i < rs.len() && (#[trigger] hits[i]) is Some implies wanted(es, ws, limit, hits[i]->0) by { if i < k { assert(hits1[i] is Some); } }
        assert forall|i: int, j: int| 0 <= i < j < rs.len() && (#[trigger] hits[i]) is Some implies (#[trigger] hits[j]) != hits[i] by {
            if j < k { assert(hits1[i] is Some && hits1[j] != hits1[i]); }
            else if hits[j] == hits[i] { assert(hits1[i] == hit); assert(hits1.contains(Some(hit->0))); }
        }
        (hits, n)
    }
}
/// A search that comes to its end has reported every word and phrase that is wanted, each exactly once, and nothing else
pub proof fn lemma_search<'a>(ss: Seq<QueryEvaluator<'a>>, rs: Seq<QueryResponse>) -> (hits: Seq<Option<Seq<int>>>)
    requires calls(ss, rs), ss[0].word_inv(), ss[0].position() == 0, ss[0].single() || ss[0].phrases_sound(), rs.len() > 0, rs.last() is Complete
    ensures told(rs, hits, patterns(ss[0].ms()), ss[0].list(), ss[0].search_depth_limit as int),
        forall|c: Seq<int>| #[trigger] wanted(patterns(ss[0].ms()), ss[0].list(), ss[0].search_depth_limit as int, c) ==> hits.contains(Some(c))
{
    let (es, ws, limit) = (patterns(ss[0].ms()), ss[0].list(), ss[0].search_depth_limit as int);
    assert(tied(ss[0], Seq::empty(), es, ws, limit)) by { reveal(tied); }
    let (hits, m) = lemma_calls(ss, rs, es, ws, limit);
    let k = rs.len() - 1;
    assert(ss[k].turned(rs[k], ss[k + 1]));
    let s = ss[k];
    assert(ss.last().phase is Done) by { reveal(QueryEvaluator::turned); match s.phase { QueryPhase::Word { .. } => {} QueryPhase::Phrase { .. } => {} QueryPhase::Done => {} } }
    assert forall|c: Seq<int>| #[trigger] wanted(es, ws, limit, c) implies hits.contains(Some(c)) by { assert(!open(ss.last(), m, es, ws, limit, c)) by { reveal(open); } }
    hits
}

// ---- with a limit on the results

/// A call, also when the limit is reached
pub open spec fn stepped<'a>(s: QueryEvaluator<'a>, r: QueryResponse, t: QueryEvaluator<'a>) -> bool {
    if s.limited() && !(s.phase is Done) { r is Complete && t.phase is Done && t.results_count == s.results_count } else { s.turned(r, t) }
}
pub open spec fn results(rs: Seq<QueryResponse>) -> int
    decreases rs.len()
{ if rs.len() == 0 { 0 } else { results(rs.drop_last()) + if rs.last() is Match { 1int } else { 0 } } }
proof fn lemma_counted<'a>(ss: Seq<QueryEvaluator<'a>>, rs: Seq<QueryResponse>)
    requires calls(ss, rs)
    ensures ss.last().results_count == ss[0].results_count + results(rs), ss.last().results_limit == ss[0].results_limit
    decreases rs.len()
{
    if rs.len() > 0 {
        let k = rs.len() - 1;
        let (ss1, rs1) = (ss.drop_last(), rs.drop_last());
        assert forall|i: int| 0 <= i < rs1.len() implies (#[trigger] ss1[i]).turned(rs1[i], ss1[i + 1]) by { assert(ss1[i] == ss[i] && ss1[i + 1] == ss[i + 1]); assert(ss[i].turned(rs[i], ss[i + 1])); }
        lemma_counted(ss1, rs1);
        assert(ss1.last() == ss[k] && ss1[0] == ss[0]);
        assert(ss[k].turned(rs[k], ss[k + 1]));
        reveal(QueryEvaluator::turned);
    }
}
/// A search that comes to its end has reported as many results as its limit allows, or every one that is wanted; each once, and nothing else
pub proof fn lemma_limited<'a>(ss: Seq<QueryEvaluator<'a>>, rs: Seq<QueryResponse>) -> (hits: Seq<Option<Seq<int>>>)
    requires ss.len() == rs.len() + 1, forall|i: int| 0 <= i < rs.len() ==> stepped(#[trigger] ss[i], rs[i], ss[i + 1]),
        ss[0].word_inv(), ss[0].position() == 0, ss[0].single() || ss[0].phrases_sound(), ss[0].results_count == 0,
        rs.len() > 0, rs.last() is Complete, forall|i: int| 0 <= i < rs.len() - 1 ==> !((#[trigger] rs[i]) is Complete)
    ensures told(rs, hits, patterns(ss[0].ms()), ss[0].list(), ss[0].search_depth_limit as int),
        ss[0].results_limit is Some ==> results(rs) <= ss[0].results_limit->0,
        (ss[0].results_limit is Some && results(rs) == ss[0].results_limit->0)
            || forall|c: Seq<int>| #[trigger] wanted(patterns(ss[0].ms()), ss[0].list(), ss[0].search_depth_limit as int, c) ==> hits.contains(Some(c)),
        // up to its last response, a search without a limit could have done the same
        forall|i: int| 0 <= i < rs.len() - 1 ==> (#[trigger] ss[i]).turned(rs[i], ss[i + 1])
{
    let (es, ws, limit) = (patterns(ss[0].ms()), ss[0].list(), ss[0].search_depth_limit as int);
    let k = rs.len() - 1;
    let (ss1, rs1) = (ss.drop_last(), rs.drop_last());
    assert forall|i: int| 0 <= i < k implies (#[trigger] ss[i]).turned(rs[i], ss[i + 1]) && !ss[i].limited() by {
        assert(stepped(ss[i], rs[i], ss[i + 1]));
        assert(!(rs[i] is Complete));
        reveal(QueryEvaluator::turned);
    }
    assert forall|i: int| 0 <= i < rs1.len() implies (#[trigger] ss1[i]).turned(rs1[i], ss1[i + 1]) by { assert(ss1[i] == ss[i] && ss1[i + 1] == ss[i + 1]); assert(ss[i].turned(rs[i], ss[i + 1])); }
    assert(ss1.last() == ss[k] && ss1[0] == ss[0]);
    lemma_counted(ss1, rs1);
    assert(results(rs) == results(rs1));
    if k > 0 && ss[0].results_limit is Some {
        let (ss2, rs2) = (ss1.drop_last(), rs1.drop_last());
        assert forall|i: int| 0 <= i < rs2.len() implies (#[trigger] ss2[i]).turned(rs2[i], ss2[i + 1]) by { assert(ss2[i] == ss[i] && ss2[i + 1] == ss[i + 1]); assert(ss[i].turned(rs[i], ss[i + 1])); }
        assert(ss2.last() == ss[k - 1] && ss2[0] == ss[0]);
        lemma_counted(ss2, rs2);
        assert(ss[k - 1].turned(rs[k - 1], ss[k]) && !ss[k - 1].limited());
    }
    assert(stepped(ss[k], rs[k], ss[k + 1]));
    if ss[k].turned(rs[k], ss[k + 1]) {
        assert(calls(ss, rs));
        lemma_search(ss, rs)
    } else {
        assert(tied(ss[0], Seq::empty(), es, ws, limit)) by { reveal(tied); }
        let (hits1, m) = lemma_calls(ss1, rs1, es, ws, limit);
        let hits = hits1.push(None);
        assert forall|i: int| 0 <= i < rs.len() implies reports(#[trigger] rs[i], ws, hits[i]) by { if i < k { assert(reports(rs1[i], ws, hits1[i])); } }
        assert forall|i: int| 0 <= i < rs.len() && (#[trigger] hits[i]) is Some implies wanted(es, ws, limit, hits[i]->0) by { assert(hits1[i] is Some); }
        assert forall|i: int, j: int| 0 <= i < j < rs.len() && (#[trigger] hits[i]) is Some implies (#[trigger] hits[j]) != hits[i] by { if j < k { assert(hits1[i] is Some && hits1[j] != hits1[i]); } }
        hits
    }
}
""")
    m.text("impl<'word> QueryEvaluator<'word> {")
    m.fn("next", Fn(
        sig="""    requires old(self).going(), old(self).results_count < usize::MAX
    ensures r is None == (old(self).phase is Done), r is None ==> *final(self) == *old(self), final(self).going(),
        r is Some && old(self).limited() ==> r->0 is Complete && final(self).phase is Done && final(self).results_count == old(self).results_count,
        r is Some && !old(self).limited() ==> !(r->0 is Timeout) && old(self).turned(r->0, *final(self))""",
        rules=[("fn next(&mut self)", "fn next(&mut self, clock_: &mut Clock)", "reading the clock becomes a call of a function which is given the clock as a parameter"), ("Option<Self::Item>", "Option<QueryResponse>", "the type of the items is written out"),
               ("self.next_within_deadline(None)", "{ let s0_ = Ghost(*self); let word_ = matches!(self.phase, QueryPhase::Word { .. }); let r_ = if word_ { self.next_within_deadline(None, clock_) } else { self.next_within_deadline_phrases(None, clock_) }; proof { lemma_turned(s0_@, r_, *self); } r_ }", "the function is verified for both phases in turn")]),
        header="impl Iterator for QueryEvaluator<'_>", qual="QueryEvaluator<'word>::next")
    m.text("}")
    return m
