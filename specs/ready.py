"""The preparation of the search for phrases, as a whole"""
from build import Module
from extract import Fn, Loop

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
PART = "a block is a function of its own, which is verified by itself (`part`); here it is called"
LIB = "a function of the library is a wrapper with an assumed contract"
TEXT = "the text of a message is made by a function without a contract"


def module():
    m = Module("ready", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::tranches::*;
use super::narrow::*;
use super::query::*;
use super::prepare::*;
use super::converge::*;
use super::layers::*;

/// A function of another crate, used for messages only
#[verifier::external_body]
pub fn estimate_(q: &Vec<SearchPhase>) -> u32 { unimplemented!() }

// ---- what is left to be reported are the phrases

/// Every phrase is in a phase
proof fn lemma_has_phase(es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, m: Seq<int>, q: Seq<SearchPhase>, r: Seq<SearchPhase>, c: Seq<int>)
    requires chosen(ws, al, m), queued(es, ws, limit, q), sized_phases(al, q, r), phrase(es, al, limit, c)
    ensures listed(r, c.len() as int, rarest(al, c)), listed(q, c.len() as int, rarest(al, c))
{
    let b = comp(c, m);
    lemma_phrase_of(ws, al, m, c);
    assert(phrase(es, ws, limit, b));
    assert(listed(q, c.len() as int, rarest(al, c))) by { reveal(queued); }
    let i = choose|i: int| 0 <= i < q.len() && #[trigger] is_phase(q[i], c.len() as int, rarest(al, c));
    let j = lemma_rarest_is(al, c);
    assert(of_class(al, rarest(al, c)));
    assert(listed(r, q[i].depth as int, q[i].tranche as int)) by { reveal(sized_phases); }
}
proof fn lemma_no_phrases_left(ms: Seq<WordMatcher>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, q: Seq<SearchPhase>, r: Seq<SearchPhase>)
    requires preparing(ms, es, ws, limit, al, q), sized_phases(al, q, r), r.len() == 0
    ensures forall|c: Seq<int>| !#[trigger] phrase(es, ws, limit, c)
{
    let m = choose|m: Seq<int>| #[trigger] traced(es, ws, limit, al, m);
    assert(chosen(ws, al, m)) by { reveal(traced); }
    assert forall|c: Seq<int>| !#[trigger] phrase(es, ws, limit, c) by {
        if phrase(es, ws, limit, c) {
            let x = lemma_traced(es, ws, limit, al, m, c);
            assert(phrase(es, al, limit, x));
            lemma_has_phase(es, ws, limit, al, m, q, r, x);
        }
    }
}
/// A matcher accepts what its pattern matches
proof fn lemma_accepts(s: WordMatcher, al: Seq<&Word>, d: int, c: Seq<int>)
    requires s.tight(d), al.len() >= 1, s.alive_wordlist@.len() == al.len(), embedded(s.alive_wordlist@, al), within(c, al.len() as int), 1 <= c.len() <= d
    ensures s.phrase_matcher.accepts(c) == finds(s.phrase_matcher.expression, text(al, c))
{
    let sl = s.alive_wordlist@;
    reveal(WordMatcher::tight); reveal(PhraseMatcher::speaks);
    lemma_same_words(sl, al);
    assert(Seq::new(c.len(), |i: int| sl[c[i]].chars@) =~= Seq::new(c.len(), |i: int| al[c[i]].chars@)) by {
        assert forall|i: int| 0 <= i < c.len() implies sl[#[trigger] c[i]].chars@ == al[c[i]].chars@ by { assert(0 <= c[i] < al.len()); assert(same_word(sl[c[i]], al[c[i]])); }
    }
    assert(text(sl, c) == text(al, c));
}
proof fn lemma_all_accept(ms: Seq<WordMatcher>, es: Seq<Expression>, al: Seq<&Word>, q: Seq<SearchPhase>, c: Seq<int>)
    requires patterns(ms) == es, able(ms, al, q), agreed(ms, al, 0), al.len() >= 1, within(c, al.len() as int), exists|i: int| 0 <= i < q.len() && 1 <= c.len() <= (#[trigger] q[i]).depth
    ensures all_accept(taken(ms), c) == all_find(es, text(al, c))
{
    reveal(all_accept); reveal(all_find);
    let i0 = choose|i: int| 0 <= i < q.len() && 1 <= c.len() <= (#[trigger] q[i]).depth;
    lemma_deepest(q);
    let d = deepest_of(q);
    assert(q[i0].depth <= d);
    let pms = taken(ms);
    assert(es.len() == ms.len() && pms.len() == ms.len());
    assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).phrase_matcher.accepts(c) == finds(es[i], text(al, c)) && es[i] == ms[i].phrase_matcher.expression && pms[i] == ms[i].phrase_matcher by {
        lemma_useful(ms, al, q, i);
        assert(ms[i].tight(d));
        assert(ms[i].alive_wordlist@.len() == al.len()) by { reveal(agreed); }
        lemma_accepts(ms[i], al, d, c);
    }
    if all_accept(pms, c) { assert forall|i: int| 0 <= i < es.len() implies finds(#[trigger] es[i], text(al, c)) by { assert(ms[i].phrase_matcher.accepts(c) == finds(es[i], text(al, c))); assert(pms[i].accepts(c)); } }
    if all_find(es, text(al, c)) { assert forall|i: int| 0 <= i < pms.len() implies (#[trigger] pms[i]).accepts(c) by { assert(ms[i].phrase_matcher.accepts(c) == finds(es[i], text(al, c))); assert(finds(es[i], text(al, c))); } }
}
/// What the search begins with are the phrases
proof fn lemma_outstanding(ms: Seq<WordMatcher>, es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, m: Seq<int>, q: Seq<SearchPhase>, r: Seq<SearchPhase>, c: Seq<int>)
    requires patterns(ms) == es, able(ms, al, q), agreed(ms, al, 0), al.len() >= 1, chosen(ws, al, m), queued(es, ws, limit, q), sized_phases(al, q, r)
    ensures (all_accept(taken(ms), c) && todo(al, r, seq![0int], c)) == phrase(es, al, limit, c)
{
    if phrase(es, al, limit, c) {
        lemma_has_phase(es, ws, limit, al, m, q, r, c);
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] is_phase(r[i], c.len() as int, rarest(al, c));
        assert(belongs(al, r[i], c));
        let j = choose|j: int| 0 <= j < q.len() && #[trigger] is_phase(q[j], c.len() as int, rarest(al, c));
        assert(1 <= c.len() <= q[j].depth);
        assert(!before(c, seq![0int])) by { if before(c, seq![0int]) { let k = choose|k: int| 0 <= k < 1 && k < c.len() && c.take(k) == seq![0int].take(k) && #[trigger] c[k] < seq![0int][k]; assert(0 <= c[k] < al.len()); } }
        assert(todo(al, r, seq![0int], c));
        lemma_all_accept(ms, es, al, q, c);
    }
    if all_accept(taken(ms), c) && todo(al, r, seq![0int], c) {
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] belongs(al, r[i], c) && (i == 0 ==> !before(c, seq![0int]));
        assert(listed(q, r[i].depth as int, r[i].tranche as int)) by { reveal(sized_phases); }
        let j = choose|j: int| 0 <= j < q.len() && #[trigger] is_phase(q[j], r[i].depth as int, r[i].tranche as int);
        assert(2 <= q[j].depth <= limit) by { reveal(queued); }
        assert(1 <= c.len() <= q[j].depth);
        lemma_all_accept(ms, es, al, q, c);
    }
}
proof fn lemma_begun<'a>(me: QueryEvaluator<'a>, ms: Seq<WordMatcher<'a>>, es: Seq<Expression>, ws: Seq<&'a Word>, limit: int, al: Seq<&'a Word>, q: Seq<SearchPhase>)
    requires preparing(ms, es, ws, limit, al, q), agreed(ms, al, 0), al.len() >= 1, me.phrase_inv(), me.pms() == taken(ms), me.alive() == al, sized_phases(al, q, me.queue()), me.current() == seq![0int]
    ensures me.begun(es, ws, limit)
{
    reveal(QueryEvaluator::begun);
    let m = choose|m: Seq<int>| #[trigger] traced(es, ws, limit, al, m);
    assert(chosen(ws, al, m)) by { reveal(traced); }
    assert forall|c: Seq<int>| #[trigger] me.outstanding(c) == phrase(es, al, limit, c) by { lemma_outstanding(ms, es, ws, limit, al, m, q, me.queue(), c); }
}
proof fn lemma_few<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>)
    requires linked(ms, ws, false), ms.len() >= 1
    ensures ws.len() < 0x7fff_ffff
{ reveal(linked); assert(resting(ms[0], ws, false)); }
proof fn lemma_fewer(es: Seq<Expression>, ws: Seq<&Word>, limit: int, al: Seq<&Word>, m: Seq<int>)
    requires traced(es, ws, limit, al, m), sorted(ws)
    ensures al.len() <= ws.len(), sorted(al)
{
    reveal(traced);
    lemma_sorted_still(ws, al, m);
    lemma_into_few(m, ws.len() as int);
}
proof fn lemma_into_few(m: Seq<int>, n: int)
    requires into(m, n), n >= 0
    ensures m.len() <= n
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        let l = m[m.len() - 1];
        assert(0 <= l < n);
        assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < l by { assert(d[i] == m[i]); assert(m[i] < m[m.len() - 1]); assert(0 <= m[i] < n); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies d[i] < d[j] by { assert(m[i] < m[j]); }
        lemma_into_few(d, l);
    }
}
""")
    f = Fn(
        sig="""    requires old(self).word_inv(), !old(self).single(), old(self).position() == old(self).list().len(), old(self).phrases_sound()
    ensures final(self).results_limit == old(self).results_limit, final(self).search_depth_limit == old(self).search_depth_limit, final(self).results_count == old(self).results_count,
        r is Logs || (r is Complete && final(self).phase is Done),
        r is Complete ==> forall|c: Seq<int>| !#[trigger] phrase(patterns(old(self).ms()), old(self).list(), old(self).search_depth_limit as int, c),
        r is Logs ==> final(self).begun(patterns(old(self).ms()), old(self).list(), old(self).search_depth_limit as int)""",
        start="        let ghost me0 = *self; let ghost ms0 = self.ms(); let ghost es = patterns(self.ms()); let ghost ws = self.list(); let ghost limit = self.search_depth_limit as int; proof { assert(self.phase is Word); assert(ms0.len() >= 1); }",
        rules=[("matchers.split_at_mut($k)", "split_mut(matchers, $k)", LIB),
               ("let mut log_messages = vec![];", "let mut log_messages: Vec<String> = Vec::new();", "a macro"),
               ("let mut alive_wordlist = { $z }.clone();", "let mut alive_wordlist = alive_words_(first_matcher, remaining_matchers, Ghost(ws));", PART),
               ("let mut tranches = $z let mut search_queue: Vec<_> = $e;", "let mut search_queue = all_phases_(&alive_wordlist, self.search_depth_limit);", PART),
               ("{ let start = $z }", "match converge_(matchers, alive_wordlist, search_queue, Ghost(es), Ghost(ws), Ghost(limit)) { None => { self.phase = QueryPhase::Done; return QueryResponse::Complete(text_()); } Some((words_, queue_)) => { alive_wordlist = words_; search_queue = queue_; } }", PART),
               ("let tranche_max: Tranche = $e; $z search_queue.sort_by_key($k);", "search_queue = sizes_(&alive_wordlist, search_queue);", PART),
               ("let phrase_matchers: Vec<_> = $z let initial_search_estimate = $e;", "let (phrase_matchers, search_layers) = layers_(matchers, &alive_wordlist, &search_queue, Ghost(q_)); let initial_search_estimate = estimate_(&search_queue);", PART),
               ("alive_wordlist.to_vec()", "copy_words(&alive_wordlist)", LIB),
               ("$l.to_string()", "text_()", TEXT)],
        attrs=ATTRS,
        at=[("let mut alive_wordlist = alive_words_(first_matcher, remaining_matchers, Ghost(ws));", "before", "        let ghost f_ = first_matcher@; let ghost r_ = remaining_matchers@; proof { assert(f_ + r_ =~= ms0); }"),
            ("let mut alive_wordlist = alive_words_(first_matcher, remaining_matchers, Ghost(ws));", "after", "        proof { lemma_few(f_ + r_, ws); lemma_words_left(matchers@, ws, limit); }"),
            ("let mut search_queue = all_phases_(&alive_wordlist, self.search_depth_limit);", "after", "        proof { lemma_begin(matchers@, ws, limit, search_queue@); }"),
            ("if alive_wordlist.is_empty() || search_queue.is_empty()", "before", "        let ghost al_ = alive_wordlist@; let ghost q_ = search_queue@; let ghost ms_ = matchers@; proof { if al_.len() == 0 || q_.len() == 0 { lemma_no_phrases(ms_, es, ws, limit, al_, q_); } let m_ = choose|m: Seq<int>| #[trigger] traced(es, ws, limit, al_, m); lemma_fewer(es, ws, limit, al_, m_); assert(distinct(q_)) by { reveal(queued); } }"),
            ("if search_queue.is_empty()", "before", "        proof { lemma_sized_queue(al_, q_, search_queue@, es, ws, limit); if search_queue@.len() == 0 { lemma_no_phrases_left(ms_, es, ws, limit, al_, q_, search_queue@); } }"),
            ("QueryResponse::Logs(log_messages)", "before", "        proof { assert(self.current() =~= seq![0int]); lemma_begun(*self, ms_, es, ws, limit, al_, q_); }"),
            ])
    f.part = ("let (first_matcher, remaining_matchers) = $e; $z let mut log_messages = vec![]; $zb QueryResponse::Logs(log_messages)",
              "pub fn prepare_(&mut self) -> QueryResponse",
              "match &mut self.phase { QueryPhase::Word { matchers, wordlist } => { let (first_matcher, remaining_matchers) = $e; let mut log_messages = vec![]; $zb QueryResponse::Logs(log_messages) } _ => never_() }")
    m.text("""impl<'word> QueryEvaluator<'word> {
    /// What is needed to look for phrases
    pub open spec fn phrases_sound(self) -> bool { all_transitive(patterns(self.ms())) && sorted(self.list()) && self.search_depth_limit < usize::MAX && self.ms().len() <= 0xffff_ffff }
    /// The search for phrases begins: all phrases are to be reported
    #[verifier::opaque]
    pub open spec fn begun(self, es: Seq<Expression>, ws: Seq<&Word>, limit: int) -> bool {
        &&& self.phrase_inv() && exists|m: Seq<int>| #[trigger] traced(es, ws, limit, self.alive(), m)
        &&& forall|c: Seq<int>| #[trigger] self.outstanding(c) == phrase(es, self.alive(), limit, c)
    }""")
    m.fn("next_within_deadline", f, header="impl<'word> QueryEvaluator<'word>", qual="QueryEvaluator<'word>::next_within_deadline: preparation")
    m.text("}")
    return m
