"""From the text of a query to the words it matches"""
from build import Module


def module():
    m = Module("meaning", "parser.rs")
    m.text(r"""
use super::words::*;
use super::parser::*;
use super::settings::*;
use super::expression::*;
use super::construct::*;
use super::compile::*;
use super::anagrams::*;
use super::phrases::*;
use super::query::all_find;
use super::evaluator::*;
use super::described::*;
use super::syntax::{Tree, Rule, denotes, mentioned, stands_for, in_force, written, edits_of, set_if};
use super::texts::{expresses, all_expressed, asks, Reading};

// ---- what a text means (from the documentation)

/// Does the text ask for the symbol: by an option, or by mentioning it?
pub open spec fn asks_for(t: Tree, s: int) -> bool {
    mentioned(t.inner[0], s) || s == SPACE && written(t.inner.skip(1), Rule::option_word_boundaries) || s == PUNCT && written(t.inner.skip(1), Rule::option_punctuation)
}
/// Spaces and punctuation play no role unless they are asked for
pub open spec fn no_role(t: Tree, c: Char) -> bool { (c.sym() == SPACE || c.sym() == PUNCT) && !asks_for(t, c.sym()) }
pub open spec fn left_over(p: spec_fn(Char) -> bool, w: Seq<Char>) -> Seq<Char>
    decreases w.len()
{ if w.len() == 0 { w } else if p(w.last()) { left_over(p, w.drop_last()) } else { left_over(p, w.drop_last()).push(w.last()) } }
pub open spec fn relevant(t: Tree, w: Seq<Char>) -> Seq<Char> { left_over(|c: Char| no_role(t, c), w) }
/// `w` becomes `v` by at most `f` edits: symbols are left out, or replaced by letters, or letters are put in
pub open spec fn apart(w: Seq<Char>, v: Seq<Char>, f: int) -> bool
    decreases w.len(), v.len()
{
    ||| w.len() == 0 && v.len() == 0
    ||| w.len() > 0 && v.len() > 0 && w.last().sym() == v.last().sym() && apart(w.drop_last(), v.drop_last(), f)
    ||| f > 0 && w.len() > 0 && apart(w.drop_last(), v, f - 1)
    ||| f > 0 && w.len() > 0 && v.len() > 0 && is_letter(v.last().sym()) && apart(w.drop_last(), v.drop_last(), f - 1)
    ||| f > 0 && v.len() > 0 && is_letter(v.last().sym()) && apart(w, v.drop_last(), f - 1)
}
/// A string that the text denotes, and spaces at its end
pub open spec fn one_of_its(t: Tree, v: Seq<Char>) -> bool { exists|k: int| 0 <= k <= v.len() && denotes(t.inner[0])(#[trigger] v.take(k)) && spaces(v.skip(k)) }
pub open spec fn allowance(t: Tree) -> int { if edits_of(t.inner.skip(1)) is Some { edits_of(t.inner.skip(1))->0 as int } else { 0 } }
/// The text of an expression describes the word (or phrase)
pub open spec fn text_describes(t: Tree, w: Seq<Char>) -> bool { exists|v: Seq<Char>| good(v) && #[trigger] one_of_its(t, v) && apart(relevant(t, w), v, allowance(t)) }

// ---- the matcher does it

pub open spec fn skipped_by(e: Expression) -> spec_fn(Char) -> bool { |c: Char| e.skips(c) }
pub proof fn lemma_apart(e: Expression, w: Seq<Char>, v: Seq<Char>, f: int)
    ensures e.edits(w, v, f) == apart(left_over(skipped_by(e), w), v, f)
    decreases w.len(), v.len()
{
    let p = skipped_by(e);
    let x = left_over(p, w);
    if w.len() > 0 {
        let d = w.drop_last();
        lemma_apart(e, d, v, f); lemma_apart(e, d, v, f - 1);
        if v.len() > 0 { lemma_apart(e, d, v.drop_last(), f); lemma_apart(e, d, v.drop_last(), f - 1); }
        if p(w.last()) { } else { assert(x.drop_last() =~= left_over(p, d)); assert(x.last() == w.last()); }
    }
    if v.len() > 0 { lemma_apart(e, w, v.drop_last(), f - 1); }
}
/// Without edits, it is the string itself
pub proof fn lemma_exactly(w: Seq<Char>, v: Seq<Char>)
    ensures apart(w, v, 0) == (w == v)
    decreases w.len()
{
    if w.len() > 0 && v.len() > 0 {
        lemma_exactly(w.drop_last(), v.drop_last());
        if apart(w, v, 0) { assert(w.last() == v.last()); assert(w =~= w.drop_last().push(w.last())); assert(v =~= v.drop_last().push(v.last())); }
    } else if w.len() == 0 && v.len() == 0 { assert(w =~= v); }
}
/// Words that differ in symbols without a role only are matched alike
pub proof fn lemma_alike(e: Expression, ast: Ast, w: Seq<Char>, u: Seq<Char>, f: int)
    requires left_over(skipped_by(e), w) == left_over(skipped_by(e), u)
    ensures matches(e, ast, w, f) == matches(e, ast, u, f)
{
    assert forall|v: Seq<Char>| e.edits(w, v, f) == e.edits(u, v, f) by { lemma_apart(e, w, v, f); lemma_apart(e, u, v, f); }
    if matches(e, ast, w, f) { let v = choose|v: Seq<Char>| good(v) && #[trigger] accepts(ast, v) && e.edits(w, v, f); assert(e.edits(u, v, f)); }
    if matches(e, ast, u, f) { let v = choose|v: Seq<Char>| good(v) && #[trigger] accepts(ast, v) && e.edits(u, v, f); assert(e.edits(w, v, f)); }
}
/// What has no role can be anywhere
pub proof fn lemma_anywhere(p: spec_fn(Char) -> bool, w: Seq<Char>, c: Char, u: Seq<Char>)
    requires p(c)
    ensures left_over(p, w + seq![c] + u) == left_over(p, w + u)
    decreases u.len()
{
    let x = w + seq![c] + u;
    let y = w + u;
    if u.len() == 0 { assert(x.drop_last() =~= w); assert(y =~= w); assert(x.last() == c); }
    else {
        lemma_anywhere(p, w, c, u.drop_last());
        assert(x.drop_last() =~= w + seq![c] + u.drop_last());
        assert(y.drop_last() =~= w + u.drop_last());
        assert(x.last() == u.last() && y.last() == u.last());
    }
}
pub proof fn lemma_left_over(p: spec_fn(Char) -> bool, q: spec_fn(Char) -> bool, w: Seq<Char>)
    requires forall|c: Char| #[trigger] p(c) == q(c)
    ensures left_over(p, w) == left_over(q, w)
{ assert(p =~= q); }
/// What has to be matched if it is asked for: every symbol stays
pub proof fn lemma_all_relevant(t: Tree, w: Seq<Char>)
    requires asks_for(t, SPACE), asks_for(t, PUNCT)
    ensures relevant(t, w) == w
    decreases w.len()
{ if w.len() > 0 { lemma_all_relevant(t, w.drop_last()); assert(w =~= w.drop_last().push(w.last())); } }
/// The syntax tree describes what the text describes
pub proof fn lemma_text(a: ExpressionAst, t: Tree, w: Seq<Char>)
    requires expresses(a, t)
    ensures describes(a, w) == text_describes(t, w)
{
    reveal(stands_for);
    assert(fuzz_of(a) == allowance(t));
    assert forall|v: Seq<Char>| accepts(a.root, v) == one_of_its(t, v) by {
        if accepts(a.root, v) { let k = choose|k: int| 0 <= k <= v.len() && lang(a.root)(#[trigger] v.take(k)) && spaces(v.skip(k)); assert(denotes(t.inner[0])(v.take(k))); }
        if one_of_its(t, v) { let k = choose|k: int| 0 <= k <= v.len() && denotes(t.inner[0])(#[trigger] v.take(k)) && spaces(v.skip(k)); assert(lang(a.root)(v.take(k))); }
    }
    assert forall|e: Expression, v: Seq<Char>| set_up(e, a) implies #[trigger] e.edits(w, v, fuzz_of(a)) == apart(relevant(t, w), v, allowance(t)) by {
        lemma_apart(e, w, v, fuzz_of(a));
        let p = skipped_by(e);
        let q = |c: Char| no_role(t, c);
        assert forall|c: Char| #[trigger] p(c) == q(c) by { }
        lemma_left_over(p, q, w);
    }
    if describes(a, w) {
        let e = choose|e: Expression| set_up(e, a) && #[trigger] matches(e, a.root, w, fuzz_of(a));
        let v = choose|v: Seq<Char>| good(v) && #[trigger] accepts(a.root, v) && e.edits(w, v, fuzz_of(a));
        assert(one_of_its(t, v));
    }
    if text_describes(t, w) {
        let v = choose|v: Seq<Char>| good(v) && #[trigger] one_of_its(t, v) && apart(relevant(t, w), v, allowance(t));
        let e = some_expression(a);
        assert(accepts(a.root, v));
        assert(e.edits(w, v, fuzz_of(a)));
        assert(matches(e, a.root, w, fuzz_of(a)));
    }
}
/// (An expression with the options of the text; there is one)
pub proof fn some_expression(a: ExpressionAst) -> (e: Expression)
    ensures set_up(e, a)
{
    let e0: Expression = arbitrary();
    Expression { ignore_word_boundaries: !(a.options.explicit_word_boundaries == Some(true)), ignore_punctuation: !(a.options.explicit_punctuation == Some(true)), ..e0 }
}
/// The patterns of a text together: what each of them describes on its own is found
pub proof fn lemma_texts(q: QueryAst, st: Reading, es: Seq<Expression>, w: Seq<Char>)
    requires asks(q, st), es.len() == q.expressions@.len(), all_mean(es, q.expressions@, es.len() as int), good(w), forall|x: int| 0 <= x < st.expressions.len() ==> text_describes(#[trigger] st.expressions[x], w)
    ensures all_find(es, w)
{
    let os = choose|os: Seq<ExpressionAst>| #[trigger] all_expressed(os, st.expressions) && expanded(os, q.expressions@);
    reveal(all_expressed);
    assert forall|x: int| 0 <= x < os.len() implies parsed((#[trigger] os[x]).root) by { assert(expresses(os[x], st.expressions[x])); reveal(stands_for); }
    assert forall|x: int| 0 <= x < os.len() implies describes(#[trigger] os[x], w) by { assert(expresses(os[x], st.expressions[x])); lemma_text(os[x], st.expressions[x], w); }
    lemma_never_rejected(os, q.expressions@, es, w);
}
/// ... and nothing else, if no pattern has an anagram (or those of the form which is exact)
pub proof fn lemma_texts_exact(q: QueryAst, st: Reading, es: Seq<Expression>, w: Seq<Char>)
    requires asks(q, st), es.len() == q.expressions@.len(), all_mean(es, q.expressions@, es.len() as int), good(w), all_find(es, w),
        forall|a: ExpressionAst, x: int| 0 <= x < st.expressions.len() && #[trigger] expresses(a, st.expressions[x]) ==> exact(a)
    ensures forall|x: int| 0 <= x < st.expressions.len() ==> text_describes(#[trigger] st.expressions[x], w)
{
    let os = choose|os: Seq<ExpressionAst>| #[trigger] all_expressed(os, st.expressions) && expanded(os, q.expressions@);
    reveal(all_expressed);
    assert forall|x: int| 0 <= x < os.len() implies parsed((#[trigger] os[x]).root) && exact(os[x]) by { assert(expresses(os[x], st.expressions[x])); reveal(stands_for); }
    lemma_described(os, q.expressions@, es, w);
    assert forall|x: int| 0 <= x < st.expressions.len() implies text_describes(#[trigger] st.expressions[x], w) by { assert(expresses(os[x], st.expressions[x])); assert(describes(os[x], w)); lemma_text(os[x], st.expressions[x], w); }
}
""")
    return m
