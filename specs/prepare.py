"""What prepares the search for phrases"""
from build import Module, struct
from extract import Fn, Loop

NEXT_RULE = ("for matcher in remaining_matchers.iter_mut() {", "let mut rest_ = &mut *remaining_matchers; while let Some((matcher, tail_)) = next_mut({ rest_ }) { rest_ = tail_; ", "a `for` loop over mutable references is written out as calls of a wrapper with an assumed contract")
COUNT = ("let _ = $iy.iter($a, $b, None).count();", "{ let mut it_ = $iy.iter($a.as_slice(), $b, None); loop { let step_ = it_.next(); match step_ { Some(_) => { } None => { break; } } } }", "the adaptor of the iterator is written out as the loop it performs (the number is not used)")
ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
LIB = "a function of the library is a wrapper with an assumed contract"
PART = "a block is a function of its own (`part`)"


def module():
    m = Module("prepare", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::optimize::transitive;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::tranches::*;
use super::narrow::*;
use super::query::*;

// ---- the matchers as the search for words leaves them

/// What the words lead to, and what their symbols do
proof fn lemma_reaches_text(m: WordMatcher, c: Seq<int>, f: int, x: int)
    requires m.inv(m.phrase_matcher.expression.n() as int), transitive(m.phrase_matcher.expression.states@), within(c, m.alive_wordlist@.len() as int), m.phrase_matcher.reaches(c)(f, x), 0 <= f < m.phrase_matcher.fuzz_limit
    ensures m.phrase_matcher.expression.reach(0, text(m.alive_wordlist@, c), f)(x), 0 <= x < m.phrase_matcher.expression.n()
    decreases c.len()
{
    let pm = m.phrase_matcher; let e = pm.expression; let al = m.alive_wordlist@;
    let t = text(al, c);
    reveal(PhraseMatcher::fresh); reveal(classed);
    if c.len() == 0 {
        assert(t =~= Seq::<Char>::empty());
        assert(eps(e.states@, 0, x));
        assert(e.reach0(0, t, 0)(x));
        assert(e.reach(0, t, 0)(x));
    } else {
        let c0 = c.drop_last();
        let (g, d) = choose|g: int, d: int| 0 <= g <= f && #[trigger] pm.reaches(c0)(g, d) && isset(at(pm.table(c.last()), d, f - g), x);
        assert(within(c0, al.len() as int)) by { assert forall|i: int| 0 <= i < c0.len() implies 0 <= #[trigger] c0[i] < al.len() by { assert(c0[i] == c[i]); } }
        lemma_reaches_text(m, c0, g, d);
        let w = c[c.len() - 1];
        assert(0 <= w < al.len());
        assert(in_class(e, e.n() as int, pm.classes, pm.word_classes@[w], al[w].chars@));
        assert(e.reach(d, al[w].chars@, f - g)(x));
        lemma_join(e, 0, text(al, c0), g, d, al[w].chars@, f - g, x);
        lemma_text_push(al, c);
    }
    lemma_range(e, 0, t, f, x);
}
pub proof fn lemma_text_push(al: Seq<&Word>, c: Seq<int>)
    requires c.len() > 0
    ensures text(al, c) == text(al, c.drop_last()) + al[c.last()].chars@
{
    let s = Seq::new(c.len(), |i: int| al[c[i]].chars@);
    let c0 = c.drop_last();
    assert(s.drop_last() =~= Seq::new(c0.len(), |i: int| al[c0[i]].chars@));
    assert(s.last() == al[c.last()].chars@);
}
proof fn lemma_text_reaches(m: WordMatcher, c: Seq<int>, f: int, x: int) -> (r: int)
    requires m.inv(m.phrase_matcher.expression.n() as int), transitive(m.phrase_matcher.expression.states@), within(c, m.alive_wordlist@.len() as int), c.len() >= 1, m.phrase_matcher.expression.reach(0, text(m.alive_wordlist@, c), f)(x), 0 <= f < m.phrase_matcher.fuzz_limit
    ensures 0 <= r <= f, m.phrase_matcher.reaches(c)(r, x)
    decreases c.len()
{
    let pm = m.phrase_matcher; let e = pm.expression; let al = m.alive_wordlist@;
    let w = c[c.len() - 1];
    let v = al[w].chars@;
    let c0 = c.drop_last();
    reveal(PhraseMatcher::fresh); reveal(classed);
    lemma_text_push(al, c);
    assert(0 <= w < al.len());
    assert(in_class(e, e.n() as int, pm.classes, pm.word_classes@[w], v));
    let t = pm.table(w);
    assert(e.correct(t, e.n() as int, v));
    if c0.len() == 0 {
        assert(text(al, c0) =~= Seq::<Char>::empty());
        assert(text(al, c) =~= v);
        assert(has(t, 0, f, x));
        let h = choose|h: int| 0 <= h <= f && #[trigger] isset(at(t, 0, h), x);
        assert(eps(e.states@, 0, 0));
        assert(pm.reaches(c0)(0, 0));
        assert(isset(at(t, 0, h - 0), x));
        h
    } else {
        let r = lemma_split(e, 0, text(al, c0), v, f, x);
        let d = r.1;
        lemma_range(e, 0, text(al, c0), r.0, d);
        assert(within(c0, al.len() as int)) by { assert forall|i: int| 0 <= i < c0.len() implies 0 <= #[trigger] c0[i] < al.len() by { assert(c0[i] == c[i]); } }
        let g = lemma_text_reaches(m, c0, r.0, d);
        assert(has(t, d, f - r.0, x));
        let h = choose|h: int| 0 <= h <= f - r.0 && #[trigger] isset(at(t, d, h), x);
        assert(isset(at(t, d, (g + h) - g), x));
        assert(pm.reaches(c0)(g, d));
        g + h
    }
}
/// A matcher that has evaluated words tells which phrases of these words are matched
pub proof fn lemma_first_tight(m: WordMatcher, d: int)
    requires m.inv(m.phrase_matcher.expression.n() as int), transitive(m.phrase_matcher.expression.states@)
    ensures m.tight(d), m.phrase_matcher.ok(), m.phrase_matcher.tidy()
{
    let pm = m.phrase_matcher; let e = pm.expression; let al = m.alive_wordlist@; let n = al.len() as int; let k = e.n() as int;
    reveal(WordMatcher::tight); reveal(PhraseMatcher::tidy); reveal(PhraseMatcher::covered); reveal(PhraseMatcher::speaks); reveal(PhraseMatcher::fresh); reveal(classed);
    assert(state_wf(e.states@[0], e.n()));
    assert(pm.tidy()) by {
        assert forall|j: int, s: int, f: int, x: int| 0 <= j < pm.classes.keys().len() && 0 <= s < pm.states_len && 0 <= f < pm.fuzz_limit && #[trigger] isset(at(pm.classes.keys()[j], s, f), x) implies x < pm.states_len by { assert(tidy(pm.classes.keys()[j], k, e.fuzz + 1, k)); }
    }
    assert(pm.dead_first()) by {
        assert forall|s: int, f: int, x: int| 0 <= s < pm.states_len && 0 <= f < pm.fuzz_limit implies !#[trigger] isset(at(pm.classes.keys()[0], s, f), x) by { assert(no_bits(at(pm.classes.keys()[0], s, f))); }
    }
    assert forall|w: int| 0 <= w < n implies e.correct(#[trigger] pm.table(w), k, al[w].chars@) && pm.word_classes@[w] < pm.classes.keys().len() by { assert(in_class(e, k, pm.classes, pm.word_classes@[w], al[w].chars@)); }
    assert(m.paired()) by { assert forall|w: int| 0 <= w < pm.word_classes@.len() implies #[trigger] pm.word_classes@[w] < pm.classes.keys().len() by { assert(in_class(e, k, pm.classes, pm.word_classes@[w], al[w].chars@)); } }
    assert(pm.covered(n)) by {
        assert(eps(e.states@, 0, 0));
        let z = Seq::<Char>::empty();
        assert forall|w: int, x: int, f: int, y: int| 0 <= w < n && isset(pm.start_states.blocks@, x) && 0 <= f < pm.fuzz_limit && #[trigger] isset(at(pm.table(w), x, f), y) implies has(pm.table(w), 0, f, y) by {
            let v = al[w].chars@;
            assert(eps(e.states@, 0, x));
            assert(e.reach0(0, z, 0)(x));
            assert(e.reach(0, z, 0)(x));
            lemma_range(e, 0, z, 0, x);
            assert(e.correct(pm.table(w), k, v));
            assert(e.reach(x, v, f)(y));
            lemma_join(e, 0, z, 0, x, v, f, y);
            assert(z + v =~= v);
        }
    }
    assert(pm.speaks(al, d)) by {
        assert forall|c: Seq<int>| within(c, n) && 1 <= c.len() <= d implies #[trigger] pm.accepts(c) == finds(e, text(al, c)) by {
            let t = text(al, c);
            let x = e.n() - 1;
            if pm.accepts(c) {
                let f = choose|f: int| 0 <= f < pm.fuzz_limit && #[trigger] pm.reaches(c)(f, x);
                lemma_reaches_text(m, c, f, x);
                lemma_mono(e, 0, t, f, e.fuzz as int, x);
            }
            if finds(e, t) {
                let g = lemma_text_reaches(m, c, e.fuzz as int, x);
                assert(pm.reaches(c)(g, x));
            }
        }
    }
}
/// A word of a phrase that is matched is kept
pub proof fn lemma_word_kept(e: Expression, al: Seq<&Word>, c: Seq<int>, i: int)
    requires e.wf(), transitive(e.states@), finds(e, text(al, c)), 0 <= i < c.len()
    ensures kept(e, e.n() as int, al[c[i]].chars@)
{
    lemma_word_live(e, al, c, i, e.fuzz as int, e.n() - 1);
    lemma_kept(e, e.n() as int, al[c[i]].chars@);
}
proof fn lemma_word_live(e: Expression, al: Seq<&Word>, c: Seq<int>, i: int, f: int, x: int)
    requires e.wf(), transitive(e.states@), e.reach(0, text(al, c), f)(x), 0 <= f <= e.fuzz, 0 <= i < c.len()
    ensures live(e, e.n() as int, al[c[i]].chars@)
    decreases c.len()
{
    lemma_text_push(al, c);
    let c0 = c.drop_last();
    let r = lemma_split(e, 0, text(al, c0), al[c.last()].chars@, f, x);
    lemma_range(e, 0, text(al, c0), r.0, r.1);
    if i == c.len() - 1 {
        assert(e.reach(r.1, al[c[i]].chars@, f - r.0)(x));
    } else {
        assert(c0[i] == c[i]);
        lemma_word_live(e, al, c0, i, r.0, r.1);
    }
}

// ---- the words that are left

#[verifier::external_body]
pub fn copy_words<'a>(v: &Vec<&'a Word>) -> (r: Vec<&'a Word>) ensures r@ == v@ { v.clone() }

/// All words have been evaluated
#[verifier::opaque]
pub open spec fn finished<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>) -> bool {
    linked(ms, ws, false) && forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).word_index == source_of(ms, ws, i).len()
}
proof fn lemma_linking<'a>(f: WordMatcher<'a>, rem: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>)
    requires linked(seq![f] + rem, ws, false)
    ensures linking(f, f, rem, Seq::<WordMatcher>::empty(), ws, false), among(f.alive_wordlist@, ws), resting(f, ws, false)
{
    reveal(linked); reveal(linking);
    let x = seq![f] + rem;
    assert(x[0] == f);
    assert(resting(x[0], ws, false));
    assert(source_of(x, ws, 0) == ws);
    assert(whole(x[0], ws, false));
}
proof fn lemma_finished<'a>(f: WordMatcher<'a>, rem0: Seq<WordMatcher<'a>>, done: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>)
    requires linking(f, f, rem0, done, ws, false), done.len() == rem0.len(), f.word_index == ws.len()
    ensures finished(seq![f] + done, ws), patterns(seq![f] + done) == patterns(seq![f] + rem0)
{
    let x = seq![f] + done;
    lemma_all_done(f, f, rem0, done, ws, false, patterns(seq![f] + rem0));
    reveal(finished);
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).word_index == source_of(x, ws, i).len() by {
        reveal(linking);
        if i > 0 { assert(x[i] == done[i - 1]); assert(resting(done[i - 1], ws, false)); if i > 1 { assert(x[i - 1] == done[i - 2]); } }
    }
}
""")
    def part(pattern, head, f, body="$z", qual=None):
        f.part = (pattern, head, body)
        f.attrs = f.attrs or ATTRS
        m.fn("next_within_deadline", f, header="impl<'word> QueryEvaluator<'word>", qual="QueryEvaluator<'word>::next_within_deadline: " + qual)

    part("let mut alive_wordlist = { $z }.clone();", "pub fn alive_words_<'word>(first_matcher: &[WordMatcher<'word>], remaining_matchers: &mut [WordMatcher<'word>], ws: Ghost<Seq<&'word Word>>) -> Vec<&'word Word>", Fn(
        sig="""    requires first_matcher@.len() == 1, linked(first_matcher@ + old(remaining_matchers)@, ws@, false), first_matcher@[0].word_index == ws@.len()
    ensures finished(first_matcher@ + final(remaining_matchers)@, ws@), patterns(first_matcher@ + final(remaining_matchers)@) == patterns(first_matcher@ + old(remaining_matchers)@), r@ == (first_matcher@ + final(remaining_matchers)@).last().alive_wordlist@""",
        rules=[NEXT_RULE, COUNT],
        start="        let ghost f = first_matcher@[0]; let ghost rem0 = remaining_matchers@; let ghost ws = ws@; let ghost fr_ = final(remaining_matchers)@; proof { assert(seq![f] =~= first_matcher@); lemma_linking(f, rem0, ws); reveal(linking); assert(f.phrase_matcher.expression.starts(false) == f.phrase_matcher.expression.n()); }",
        at=[("let step_ = it_.next();", "after", "                proof { lemma_advance(m0_, at_, *it_.word_matcher, prev_, false); }")],
        loops=[Loop("""            invariant_except_break k_ + rest_@.len() == rem0.len(), rest_@ == rem0.skip(k_), fr_ == done + final(rest_)@
            invariant k_ == done.len(), among(wordlist@, ws),
                linking(f, f, rem0, done, ws, false), wordlist@ == (if k_ == 0 { f } else { done[k_ - 1] }).alive_wordlist@
            ensures done.len() == rem0.len(), fr_ == done
            decreases rest_@.len()""",
            before="            let ghost mut k_ = 0int; let ghost mut done = Seq::<WordMatcher>::empty(); ",
            start="                let ghost m0_ = *matcher; let ghost prev_ = wordlist@; proof { lemma_turn(f, f, rem0, done, ws, false, prev_); assert(m0_ == rem0[k_]); }",
            end="                proof { lemma_linked_more(f, f, rem0, done, ws, false, prev_, *matcher); done = done.push(*matcher); k_ = k_ + 1; }"),
            Loop("""                invariant it_.deadline is None, !it_.single_word_only, it_.wordlist@ == prev_, it_.word_matcher.ready(prev_, false), m0_.advanced(*it_.word_matcher, prev_, false), *final(it_.word_matcher) == fm_
                ensures it_.word_matcher.word_index == prev_.len()
                decreases prev_.len() - it_.word_matcher.word_index""",
                before="                let ghost fm_ = *final(it_.word_matcher);",
                start="                let ghost at_ = *it_.word_matcher;")]),
        body="let kept_ = { $z }; proof { lemma_finished(f, rem0, fr_, ws); assert((seq![f] + fr_).last() == (if fr_.len() == 0 { f } else { fr_.last() })); } copy_words(kept_)", qual="words")
    m.text(r"""
// ---- the phases of the search

/// Equal elements next to each other are one
pub open spec fn deduped(s: Seq<Tranche>) -> Seq<Tranche>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.len() > 1 && s[s.len() - 1] == s[s.len() - 2] { deduped(s.drop_last()) } else { deduped(s.drop_last()).push(s.last()) }
}
pub open spec fn ascending(s: Seq<Tranche>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
#[verifier::external_body]
pub fn dedup_(v: &mut Vec<Tranche>) ensures final(v)@ == deduped(old(v)@) { v.dedup() }
#[verifier::external_body]
pub fn sort_(v: &mut Vec<Tranche>) ensures ascending(old(v)@) ==> final(v)@ == old(v)@ { v.sort_unstable() }
#[verifier::external_body]
pub fn copy_tranches(v: &Vec<Tranche>) -> (r: Vec<Tranche>) ensures r@ == v@ { v.clone() }
proof fn lemma_deduped(s: Seq<Tranche>)
    requires forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j]
    ensures ascending(deduped(s)), s.len() > 0 ==> deduped(s).len() > 0 && deduped(s).last() == s.last(), forall|x: Tranche| #[trigger] deduped(s).contains(x) == s.contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        let l = s[s.len() - 1];
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] <= #[trigger] t[j] by { assert(s[i] <= s[j]); }
        lemma_deduped(t);
        let (r, q) = (deduped(s), deduped(t));
        let keep = s.len() > 1 && l == s[s.len() - 2];
        if !keep && s.len() > 1 { assert(s[s.len() - 2] <= s[s.len() - 1]); assert(q.last() == t.last()); assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] < l by { if i < q.len() - 1 { assert(q[i] < q[q.len() - 1]); } } }
        if s.len() == 1 { assert(t.len() == 0); assert(q.len() == 0); }
        assert forall|x: Tranche| #[trigger] r.contains(x) == s.contains(x) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < t.len() { assert(t[i] == x); assert(t.contains(x)); assert(q.contains(x)); } else if keep { assert(t[s.len() - 2] == x); assert(t.contains(x)); assert(q.contains(x)); }
                if q.contains(x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(r[j] == x); } else { assert(r[r.len() - 1] == x); } }
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < q.len() { assert(q[i] == x); assert(q.contains(x)); assert(t.contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == x); } }
        }
    }
}
proof fn lemma_ascending_deduped(s: Seq<Tranche>)
    requires ascending(s)
    ensures deduped(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] < #[trigger] t[j] by { assert(s[i] < s[j]); }
        lemma_ascending_deduped(t);
        if s.len() > 1 { assert(s[s.len() - 2] < s[s.len() - 1]); }
        assert(t.push(s.last()) =~= s);
    }
}
pub open spec fn some_tranche(wl: Seq<&Word>, t: int) -> bool { exists|w: int| 0 <= w < wl.len() && #[trigger] tranche_of(wl, w) == t }
pub open spec fn is_phase(p: SearchPhase, d: int, t: int) -> bool { p.depth == d && p.tranche == t }
pub open spec fn listed(q: Seq<SearchPhase>, d: int, t: int) -> bool { exists|i: int| 0 <= i < q.len() && #[trigger] is_phase(q[i], d, t) }
/// Every number of words with every class of words
#[verifier::opaque]
pub open spec fn all_phases(wl: Seq<&Word>, q: Seq<SearchPhase>, limit: int) -> bool {
    &&& distinct(q) && forall|i: int| 0 <= i < q.len() ==> 2 <= (#[trigger] q[i]).depth <= limit
    &&& forall|d: int, w: int| 2 <= d <= limit && 0 <= w < wl.len() ==> #[trigger] listed(q, d, tranche_of(wl, w))
}
/// Those of fewer than `d` words, and of `d` words the first `k` classes
#[verifier::opaque]
pub open spec fn some_phases(ts: Seq<Tranche>, q: Seq<SearchPhase>, d: int, k: int) -> bool {
    &&& distinct(q) && forall|i: int| 0 <= i < q.len() ==> 2 <= (#[trigger] q[i]).depth && (q[i].depth < d || (q[i].depth == d && exists|j: int| 0 <= j < k && #[trigger] ts[j] == q[i].tranche))
    &&& forall|e: int, j: int| 2 <= e && 0 <= j < ts.len() && (e < d || (e == d && j < k)) ==> #[trigger] listed(q, e, ts[j] as int)
}
proof fn lemma_listed(q: Seq<SearchPhase>, p: SearchPhase, d: int, t: int)
    ensures listed(q, d, t) ==> listed(q.push(p), d, t), listed(q.push(p), p.depth as int, p.tranche as int)
{
    let r = q.push(p);
    assert(is_phase(r[q.len() as int], p.depth as int, p.tranche as int));
    if listed(q, d, t) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] is_phase(q[i], d, t); assert(is_phase(r[i], d, t)); }
}
proof fn lemma_some_phases(ts: Seq<Tranche>, q: Seq<SearchPhase>, d: int, k: int, p: SearchPhase)
    requires some_phases(ts, q, d, k), ascending(ts), 0 <= k < ts.len(), p.depth == d, p.tranche == ts[k], d >= 2
    ensures some_phases(ts, q.push(p), d, k + 1)
{
    reveal(some_phases);
    let r = q.push(p);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i].depth != (#[trigger] r[j]).depth || r[i].tranche != r[j].tranche by {
        if j == q.len() && q[i].depth == d { let l = choose|l: int| 0 <= l < k && #[trigger] ts[l] == q[i].tranche; assert(ts[l] < ts[k]); }
    }
    assert forall|i: int| 0 <= i < r.len() implies 2 <= (#[trigger] r[i]).depth && (r[i].depth < d || (r[i].depth == d && exists|j: int| 0 <= j < k + 1 && #[trigger] ts[j] == r[i].tranche)) by {
        if i == q.len() { assert(ts[k] == p.tranche); } else if q[i].depth == d { let l = choose|l: int| 0 <= l < k && #[trigger] ts[l] == q[i].tranche; assert(ts[l] == r[i].tranche); }
    }
    assert forall|e: int, j: int| 2 <= e && 0 <= j < ts.len() && (e < d || (e == d && j < k + 1)) implies #[trigger] listed(r, e, ts[j] as int) by {
        lemma_listed(q, p, e, ts[j] as int);
        if !(e == d && j == k) { assert(listed(q, e, ts[j] as int)); }
    }
}
proof fn lemma_next_depth(ts: Seq<Tranche>, q: Seq<SearchPhase>, d: int)
    requires some_phases(ts, q, d, ts.len() as int)
    ensures some_phases(ts, q, d + 1, 0)
{
    reveal(some_phases);
    assert forall|i: int| 0 <= i < q.len() implies 2 <= (#[trigger] q[i]).depth && q[i].depth < d + 1 by {}
}
proof fn lemma_all_phases(wl: Seq<&Word>, s: Seq<Tranche>, q: Seq<SearchPhase>, limit: int)
    requires some_phases(deduped(s), q, limit + 1, 0), s.len() == wl.len(), forall|i: int| 0 <= i < wl.len() ==> #[trigger] s[i] == wl[i].tranche, forall|x: Tranche| #[trigger] deduped(s).contains(x) == s.contains(x)
    ensures all_phases(wl, q, limit)
{
    reveal(some_phases); reveal(all_phases);
    assert forall|d: int, w: int| 2 <= d <= limit && 0 <= w < wl.len() implies #[trigger] listed(q, d, tranche_of(wl, w)) by {
        let x = s[w];
        assert(s.contains(x));
        assert(deduped(s).contains(x));
        let j = choose|j: int| 0 <= j < deduped(s).len() && deduped(s)[j] == x;
        assert(listed(q, d, deduped(s)[j] as int));
    }
}
""")
    part("let mut tranches = $z let mut search_queue: Vec<_> = $e;", "pub fn all_phases_(alive_wordlist: &Vec<&Word>, search_depth_limit: usize) -> Vec<SearchPhase>", Fn(
        sig="""    requires sorted(alive_wordlist@), 2 <= search_depth_limit < usize::MAX
    ensures all_phases(alive_wordlist@, r@, search_depth_limit as int)""",
        rules=[("alive_wordlist.iter().map(|$iw| $e).collect::<Vec<_>>()", "{ let mut v_: Vec<Tranche> = Vec::new(); let mut k_: usize = 0; while k_ < alive_wordlist.len() { let $iw = alive_wordlist[k_]; v_.push($e); k_ += 1; } v_ }", "the adaptors of the iterator are written out as the loop they perform"),
               ("tranches.dedup();", "dedup_(&mut tranches);", LIB), ("tranches.sort_unstable();", "sort_(&mut tranches);", LIB), ("tranches.clone()", "copy_tranches(&tranches)", LIB),
               ("assert_eq!(tranches, tranches_check);", "proof { assert(tranches@ == tranches_check@); }", "an assertion becomes a proof obligation"),
               ("($a..=self.search_depth_limit).flat_map(|$id| { tranches.iter().map(move |&$it| $e) }).collect()", "{ let mut v_: Vec<SearchPhase> = Vec::new(); let mut $id: usize = $a; while $id <= search_depth_limit { let mut k_: usize = 0; while k_ < tranches.len() { let $it = tranches[k_]; v_.push($e); k_ += 1; } $id += 1; } v_ }", "the adaptors of the iterator are written out as the loop they perform")],
        start="        let ghost wl = alive_wordlist@;",
        loops=[Loop("            invariant k_ <= wl.len(), v_@.len() == k_, forall|i: int| 0 <= i < k_ ==> #[trigger] v_@[i] == wl[i].tranche\n            decreases wl.len() - k_"),
               Loop("            invariant 2 <= d <= search_depth_limit + 1, some_phases(ts, v_@, d as int, 0), tranches@ == ts, ascending(ts)\n            decreases search_depth_limit + 1 - d",
                    before="            let ghost ts = tranches@; proof { assert(some_phases(ts, v_@, 2, 0)) by { reveal(some_phases); } }"),
               Loop("                invariant k_ <= ts.len(), 2 <= d <= search_depth_limit, some_phases(ts, v_@, d as int, k_ as int), tranches@ == ts, ascending(ts)\n                decreases ts.len() - k_",
                    start="                    let ghost v0_ = v_@;", end="                    proof { lemma_some_phases(ts, v0_, d as int, k_ - 1, v_@.last()); assert(v_@ =~= v0_.push(v_@.last())); }", after="                proof { lemma_next_depth(ts, v_@, d as int); }")],
        at=[("dedup_(&mut tranches);", "before", "        let ghost mut s_ = tranches@; proof { assert forall|i: int, j: int| 0 <= i <= j < s_.len() implies #[trigger] s_[i] <= #[trigger] s_[j] by { assert(tranche_of(wl, i) <= tranche_of(wl, j)); } lemma_deduped(s_); lemma_ascending_deduped(deduped(s_)); }")],
        ), body="let mut tranches = $z let phases_: Vec<SearchPhase> = $e; proof { lemma_all_phases(wl, s_, phases_@, search_depth_limit as int); } phases_", qual="queue")
    return m
