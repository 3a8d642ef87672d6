"""A search from its beginning"""
from build import Module
from extract import Fn, Loop

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
WRITTEN = "the adaptors of the iterator are written out as the loop they perform"
ASSERT = "an assertion becomes a proof obligation"


def module():
    m = Module("evaluator", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::parser::*;
use super::settings::*;
use super::expression::*;
use super::construct::plain;
use super::compile::*;
use super::optimize::transitive;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::narrow::*;
use super::query::*;
use super::converge::*;
use super::ready::*;
use std::time::Instant;

/// What is assumed of a list of words
#[verifier::opaque]
pub open spec fn listable(ws: Seq<&Word>) -> bool { ws.len() < 0x7fff_ffff && forall|i: int| 0 <= i < ws.len() ==> good((#[trigger] ws[i]).chars@) && ws[i].chars@.len() < usize::MAX }
#[verifier::opaque]
pub open spec fn all_wf(es: Seq<Expression>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).wf() }
/// The pattern matches a word iff a string that it denotes is near enough
#[verifier::opaque]
pub open spec fn means(e: Expression, ast: ExpressionAst) -> bool {
    &&& e.fuzz == (if ast.options.fuzz is Some { ast.options.fuzz->0 } else { 0 })
    &&& e.ignore_word_boundaries == !(ast.options.explicit_word_boundaries == Some(true)) && e.ignore_punctuation == !(ast.options.explicit_punctuation == Some(true))
    &&& forall|w: Seq<Char>| good(w) ==> #[trigger] finds(e, w) == matches(e, ast.root, w, e.fuzz as int)
}
#[verifier::opaque]
pub open spec fn all_mean(es: Seq<Expression>, asts: Seq<ExpressionAst>, n: int) -> bool { forall|i: int| 0 <= i < n ==> means(#[trigger] es[i], asts[i]) && es[i].wf() && transitive(es[i].states@) }
pub open spec fn all_plain(asts: Seq<ExpressionAst>) -> bool { forall|i: int| 0 <= i < asts.len() ==> plain((#[trigger] asts[i]).root) }
/// A matcher that has not seen any word
pub open spec fn untouched(s: WordMatcher, ws: Seq<&Word>) -> bool {
    s.word_index == 0 && s.alive_wordlist@.len() == 0 && s.fits(ws) && s.phrase_matcher.expression.n() >= 1 && forall|a: int| 1 <= a <= s.phrase_matcher.expression.n() ==> #[trigger] s.inv(a)
}
#[verifier::opaque]
pub open spec fn all_untouched(ms: Seq<WordMatcher>, ws: Seq<&Word>) -> bool { forall|i: int| 0 <= i < ms.len() ==> untouched(#[trigger] ms[i], ws) }
proof fn lemma_untouched<'a>(ms: Seq<WordMatcher<'a>>, ws: Seq<&'a Word>, single: bool)
    requires all_untouched(ms, ws)
    ensures linked(ms, ws, single)
{
    reveal(all_untouched); reveal(linked);
    assert forall|i: int| 0 <= i < ms.len() implies resting(#[trigger] ms[i], ws, single) && whole(ms[i], source_of(ms, ws, i), single) by {
        let s = ms[i];
        let e = s.phrase_matcher.expression;
        assert(untouched(s, ws));
        assert(1 <= e.starts(single) <= e.n());
        assert(s.inv(e.starts(single)));
        reveal(whole);
        let prev = source_of(ms, ws, i);
        assert(prev.take(0) =~= Seq::<&'a Word>::empty());
        assert(s.keeps(prev.take(0), e.starts(single)) =~= s.alive_wordlist@) by { reveal(Seq::filter); }
    }
    assert forall|i: int| 0 < i < ms.len() implies (#[trigger] ms[i]).word_index <= ms[i - 1].alive_wordlist@.len() by { assert(untouched(ms[i], ws)); }
}
proof fn lemma_transitive(ms: Seq<WordMatcher>, es: Seq<Expression>, asts: Seq<ExpressionAst>)
    requires patterns(ms) == es, all_mean(es, asts, es.len() as int)
    ensures all_transitive(patterns(ms))
{ reveal(all_mean); }
proof fn lemma_means(e: Expression, ast: ExpressionAst)
    requires e.fuzz == (if ast.options.fuzz is Some { ast.options.fuzz->0 } else { 0 }),
        e.ignore_word_boundaries == !(ast.options.explicit_word_boundaries == Some(true)), e.ignore_punctuation == !(ast.options.explicit_punctuation == Some(true)),
        forall|w: Seq<Char>, f: int| good(w) && 0 <= f ==> #[trigger] e.reach(0, w, f)(e.n() - 1) == matches(e, ast.root, w, f)
    ensures means(e, ast)
{
    reveal(means);
    assert forall|w: Seq<Char>| good(w) implies #[trigger] finds(e, w) == matches(e, ast.root, w, e.fuzz as int) by { assert(e.reach(0, w, e.fuzz as int)(e.n() - 1) == matches(e, ast.root, w, e.fuzz as int)); }
}
pub open spec fn chosen_list(o: QueryOptions, input: &[Word]) -> Seq<&Word> { match o.wordlist { Some(wl) => Seq::new(wl@.len(), |i: int| &wl@[i]), None => all_words(input) } }

impl<'word> QueryEvaluator<'word> {
    /// A search that has not begun
    pub open spec fn unbegun(self) -> bool { self.phase is Word && self.ms().len() >= 1 && all_untouched(self.ms(), self.list()) && self.results_count == 0 }
    pub proof fn lemma_unbegun(self)
        requires self.unbegun()
        ensures self.word_inv(), self.position() == 0
    { lemma_untouched(self.ms(), self.list(), self.single()); assert(untouched(self.ms()[0], self.list())) by { reveal(all_untouched); } }
}
""")
    m.impl("impl<'word> QueryEvaluator<'word>", {
        "new": Fn(sig="""    requires expressions@.len() >= 1, all_wf(expressions@), listable(all_words(input_wordlist))
    ensures r.unbegun(), patterns(r.ms()) == expressions@, r.list() == all_words(input_wordlist), r.search_depth_limit == search_depth_limit, r.results_limit == results_limit""",
            rules=[("assert!($e);", "proof { assert($e); }", ASSERT), ("expressions.is_empty()", "(expressions@.len() == 0)", "in a specification"),
                   ("1 + input_wordlist.iter().map(|$iw| $e).max().unwrap_or(0)", "1 + { let mut k_: usize = 0; let mut most_: usize = 0; while k_ < input_wordlist.len() { let $iw = &input_wordlist[k_]; let x_ = $e; if x_ >= most_ { most_ = x_; } k_ += 1; } most_ }", WRITTEN),
                   ("expressions.into_iter().map(|$ix| $e).collect()", "{ let mut v_: Vec<WordMatcher<'word>> = Vec::new(); let mut left_ = expressions; while left_.len() > 0 { let $ix = left_.remove(0); v_.push($e); } v_ }", WRITTEN)],
            attrs=ATTRS,
            start="        let ghost ws = all_words(input_wordlist); let ghost es = expressions@;",
            loops=[Loop("""                invariant k_ <= ws.len(), most_ < usize::MAX, forall|i: int| 0 <= i < k_ ==> (#[trigger] ws[i]).chars@.len() <= most_
                decreases ws.len() - k_""", start="                proof { reveal(listable); assert(ws[k_ as int].chars@.len() < usize::MAX); }"),
                Loop("""                invariant left_@ == es.skip(v_@.len() as int), v_@.len() + left_@.len() == es.len(), forall|i: int| 0 <= i < v_@.len() ==> untouched(#[trigger] v_@[i], ws) && v_@[i].phrase_matcher.expression == es[i]
                decreases left_@.len()""", before="            proof { assert(es.skip(0) =~= es); reveal(listable); reveal(all_wf); }",
                start="                proof { assert(left_@[0] == es[v_@.len() as int]); }")],
            at=[("QueryEvaluator { phase", "before", "        proof { assert(all_untouched(word_matchers@, ws)) by { reveal(all_untouched); } assert(patterns(word_matchers@) =~= es); }")]),
        "from_ast": Fn(sig="""    requires query_ast.expressions@.len() >= 1, all_plain(query_ast.expressions@), listable(chosen_list(query_ast.options, input_wordlist))
    ensures r.unbegun(), patterns(r.ms()).len() == query_ast.expressions@.len(), all_mean(patterns(r.ms()), query_ast.expressions@, query_ast.expressions@.len() as int), all_transitive(patterns(r.ms())), r.list() == chosen_list(query_ast.options, input_wordlist),
        query_ast.options.max_words is Some ==> r.search_depth_limit == query_ast.options.max_words->0, query_ast.options.max_words is None ==> r.search_depth_limit == 10,
        query_ast.options.results_limit is Some ==> r.results_limit == query_ast.options.results_limit, query_ast.options.results_limit is None ==> r.results_limit == Some(300usize)""",
            rules=[("parser::QueryAst", "QueryAst", "the path of the type"), ("const $i: PhraseDepth = $e;", "let $i: PhraseDepth = $e;", "a constant becomes a variable"), ("const $i: usize = $e;", "let $i: usize = $e;", "a constant becomes a variable"),
                   ("query_ast.options.max_words.unwrap_or($x)", "match query_ast.options.max_words { Some(x_) => x_, None => $x }", WRITTEN),
                   ("query_ast.options.results_limit.or($x)", "match query_ast.options.results_limit { Some(x_) => Some(x_), None => $x }", WRITTEN),
                   ("query_ast.expressions.iter().map(Expression::from_ast).collect()", "{ let mut v_: Vec<Expression> = Vec::new(); let mut k_: usize = 0; while k_ < query_ast.expressions.len() { v_.push(Expression::from_ast(&query_ast.expressions[k_])); k_ += 1; } v_ }", WRITTEN),
                   ("query_ast.options.wordlist.as_ref().map(|$iw| $e).unwrap_or($x)", "match &query_ast.options.wordlist { Some(x_) => { let s_ = x_.as_slice(); proof { assert(all_words(s_) =~= chosen_list(query_ast.options, input_wordlist)); } s_ } None => $x }", WRITTEN)],
            attrs=ATTRS,
            loops=[Loop("""                invariant k_ <= query_ast.expressions@.len(), v_@.len() == k_, all_mean(v_@, query_ast.expressions@, k_ as int)
                decreases query_ast.expressions@.len() - k_""", before="            proof { assert(all_mean(Seq::empty(), query_ast.expressions@, 0)) by { reveal(all_mean); } }",
                start="                let ghost v0_ = v_@; proof { assert(plain(query_ast.expressions@[k_ as int].root)); }",
                end="                proof { lemma_means(v_@[k_ - 1], query_ast.expressions@[k_ - 1]); assert(all_mean(v_@, query_ast.expressions@, k_ as int)) by { reveal(all_mean); assert forall|i: int| 0 <= i < k_ implies means(#[trigger] v_@[i], query_ast.expressions@[i]) && v_@[i].wf() && transitive(v_@[i].states@) by { if i < k_ - 1 { assert(v_@[i] == v0_[i]); } } } }")],
            at=[("Self::new(", "before", "        let ghost es_ = expressions@; proof { assert(all_wf(es_)) by { reveal(all_mean); reveal(all_wf); } assert(all_transitive(es_)) by { reveal(all_mean); } }")]),
        "set_search_depth_limit": Fn(sig="""    requires old(self).phase is Word
    ensures old(self).unbegun() ==> final(self).unbegun(), final(self).phase == old(self).phase, final(self).search_depth_limit == search_depth_limit, final(self).results_limit == old(self).results_limit, final(self).results_count == old(self).results_count""",
            rules=[("assert!(matches!($x));", "proof { assert(self.phase is Word); }", ASSERT)]),
        "set_results_limit": Fn(sig="""    requires old(self).phase is Word
    ensures old(self).unbegun() ==> final(self).unbegun(), final(self).phase == old(self).phase, final(self).search_depth_limit == old(self).search_depth_limit, final(self).results_limit == results_limit, final(self).results_count == old(self).results_count""",
            rules=[("assert!(matches!($x));", "proof { assert(self.phase is Word); }", ASSERT)]),
    })
    return m
