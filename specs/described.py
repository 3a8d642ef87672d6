"""What a query with anagrams matches"""
from build import Module


def module():
    m = Module("described", "parser.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::settings::*;
use super::expression::*;
use super::construct::*;
use super::compile::*;
use super::anagrams::*;
use super::phrases::*;
use super::query::all_find;
use super::evaluator::*;

pub open spec fn fuzz_of(a: ExpressionAst) -> int { if a.options.fuzz is Some { a.options.fuzz->0 as int } else { 0 } }
/// The expression ignores what the options say
pub open spec fn set_up(e: Expression, a: ExpressionAst) -> bool { e.ignore_word_boundaries == !(a.options.explicit_word_boundaries == Some(true)) && e.ignore_punctuation == !(a.options.explicit_punctuation == Some(true)) }
/// A string that the tree describes, anagrams included, is near enough to the word
pub open spec fn describes(a: ExpressionAst, w: Seq<Char>) -> bool { exists|e: Expression| set_up(e, a) && #[trigger] matches(e, a.root, w, fuzz_of(a)) }
/// The tree is one for which its patterns together are exact: without anagrams, or one anagram between single symbols, without edits
pub open spec fn exact(a: ExpressionAst) -> bool { plain(a.root) || (fuzz_of(a) == 0 && exists|p: int| #[trigger] fenced(a.root, p) && closed(a.root, p)) }
/// The last symbol isn't a space
pub open spec fn closed(t: Ast, p: int) -> bool { let ts = t->Sequence_0@; p == ts.len() - 1 || !ts[ts.len() - 1]->CharClass_0.has_sym(SPACE) }

proof fn lemma_same_edits(e: Expression, d: Expression, w: Seq<Char>, v: Seq<Char>, f: int)
    requires e.ignore_word_boundaries == d.ignore_word_boundaries, e.ignore_punctuation == d.ignore_punctuation
    ensures e.edits(w, v, f) == d.edits(w, v, f)
    decreases w.len(), v.len()
{
    if w.len() > 0 { lemma_same_edits(e, d, w.drop_last(), v, f); lemma_same_edits(e, d, w.drop_last(), v, f - 1); if v.len() > 0 { lemma_same_edits(e, d, w.drop_last(), v.drop_last(), f); lemma_same_edits(e, d, w.drop_last(), v.drop_last(), f - 1); } }
    if v.len() > 0 { lemma_same_edits(e, d, w, v.drop_last(), f - 1); }
}
/// Without edits a word stands for one string
proof fn lemma_one_string(e: Expression, w: Seq<Char>, v: Seq<Char>, u: Seq<Char>)
    requires e.edits(w, v, 0), e.edits(w, u, 0)
    ensures v == u
    decreases w.len()
{
    if w.len() == 0 { assert(v =~= u); }
    else if e.skips(w.last()) { lemma_one_string(e, w.drop_last(), v, u); }
    else {
        lemma_one_string(e, w.drop_last(), v.drop_last(), u.drop_last());
        assert(v.last() == u.last());
        assert(v =~= v.drop_last().push(v.last()));
        assert(u =~= u.drop_last().push(u.last()));
    }
}
proof fn lemma_matches_below(e: Expression, d: Expression, t0: Ast, t: Ast, w: Seq<Char>, f: int)
    requires matches(e, t0, w, f), below(lang(t0), lang(t)), e.ignore_word_boundaries == d.ignore_word_boundaries, e.ignore_punctuation == d.ignore_punctuation
    ensures matches(d, t, w, f)
{
    let v = choose|v: Seq<Char>| good(v) && #[trigger] accepts(t0, v) && e.edits(w, v, f);
    let k = choose|k: int| 0 <= k <= v.len() && lang(t0)(#[trigger] v.take(k)) && spaces(v.skip(k));
    assert(good(v.take(k)));
    assert(lang(t)(v.take(k)));
    lemma_same_edits(e, d, w, v, f);
    assert(accepts(t, v));
}
/// What the query describes is never rejected
pub proof fn lemma_never_rejected(os: Seq<ExpressionAst>, ns: Seq<ExpressionAst>, es: Seq<Expression>, w: Seq<Char>)
    requires all_parsed(os), expanded(os, ns), es.len() == ns.len(), all_mean(es, ns, ns.len() as int), good(w), forall|x: int| 0 <= x < os.len() ==> describes(#[trigger] os[x], w)
    ensures all_find(es, w)
{
    reveal(expanded); reveal(all_find); reveal(all_mean);
    assert forall|y: int| 0 <= y < es.len() implies finds(#[trigger] es[y], w) by {
        assert(comes_from(os, ns[y]));
        let (x, n) = choose|x: int, n: int| 0 <= x < os.len() && 0 <= n && #[trigger] expansion(os[x], ns[y], n);
        assert(describes(os[x], w));
        let e = choose|e: Expression| set_up(e, os[x]) && #[trigger] matches(e, os[x].root, w, fuzz_of(os[x]));
        lemma_replaced(os[x].root, ns[y].root, n);
        reveal(means);
        assert(means(es[y], ns[y]));
        lemma_matches_below(e, es[y], os[x].root, ns[y].root, w, fuzz_of(os[x]));
    }
}
proof fn lemma_ends(t0: Ast, p: int, t: Ast, n: int, v: Seq<Char>)
    requires fenced(t0, p), closed(t0, p), parsed(t0), replaced(t0, t, n), lang(t)(v), good(v)
    ensures v.len() >= t0->Sequence_0@.len() - 1, v.len() > t0->Sequence_0@.len() - 1 ==> v.last().sym() != SPACE
{
    let ts = t0->Sequence_0@;
    let us = t->Sequence_0@;
    let l = ts.len() as int;
    lemma_lang(t);
    assert forall|k: int| 0 <= k < l && k != p implies #[trigger] us[k] is CharClass && us[k] == ts[k] by { assert(ts[k] is CharClass); assert(replaced(ts[k], us[k], n)); }
    lemma_cat_fenced(us, 0, p, v);
    if p == l - 1 {
        let mid = middle(l, 0, p, v);
        assert(ts[p] is Anagram);
        assert(replaced(ts[p], us[p], n));
        assert(parsed(ts[p]));
        assert(demand(ts[p]->kind, ts[p]->bank@, n, mid));
        if mid.len() > 0 {
            assert(v.last() == mid[mid.len() - 1]);
            let s = v.last().sym();
            assert(allowed(ts[p]->kind, ts[p]->bank@, mid[mid.len() - 1].sym()));
            if cnt(ts[p]->bank@, s) > 0 { lemma_cnt(ts[p]->bank@, s); let b = ts[p]->bank@; let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).sym() == s; assert(is_letter(b[i].sym())); }
        }
    } else {
        let z = v.skip(v.len() - (l - 1 - p));
        let x = l - 1 - (p + 1);
        assert(us[(p + 1) + x] is CharClass);
        assert(z[x] == v.last());
    }
}

/// A tree for which they are exact: what all its patterns match, it describes
proof fn lemma_all_exact(a: ExpressionAst, ns: Seq<ExpressionAst>, es: Seq<Expression>, w: Seq<Char>)
    requires parsed(a.root), exact(a), es.len() == ns.len(), all_mean(es, ns, ns.len() as int), good(w), all_find(es, w), forall|n: int| 0 <= n < count_of(a.root) ==> #[trigger] comes_to(a, ns, n)
    ensures describes(a, w)
{
    reveal(all_find); reveal(all_mean); reveal(means);
    let m = count_of(a.root);
    lemma_most(anagrams_in(a.root), anagrams_in(a.root).len() as int);
    let ys = Seq::new(m as nat, |n: int| choose|y: int| 0 <= y < ns.len() && #[trigger] expansion(a, ns[y], n));
    let vs = Seq::new(m as nat, |n: int| choose|v: Seq<Char>| good(v) && #[trigger] accepts(ns[ys[n]].root, v) && es[ys[n]].edits(w, v, fuzz_of(a)));
    assert forall|n: int| 0 <= n < m implies 0 <= #[trigger] ys[n] < ns.len() && expansion(a, ns[ys[n]], n) && good(vs[n]) && accepts(ns[ys[n]].root, vs[n]) && es[ys[n]].edits(w, vs[n], fuzz_of(a)) && set_up(es[ys[n]], a) by {
        assert(comes_to(a, ns, n));
        let y = ys[n];
        assert(0 <= y < ns.len() && expansion(a, ns[y], n));
        assert(means(es[y], ns[y]) && finds(es[y], w));
        assert(matches(es[y], ns[y].root, w, fuzz_of(a)));
    }
    let e = es[ys[0]];
    let v = vs[0];
    if plain(a.root) {
        lemma_replaced(a.root, ns[ys[0]].root, 0);
        lemma_matches_below(e, e, ns[ys[0]].root, a.root, w, fuzz_of(a));
    } else {
        let p = choose|p: int| #[trigger] fenced(a.root, p) && closed(a.root, p);
        let us = Seq::new(m as nat, |n: int| ns[ys[n]].root);
        let k = choose|k: int| 0 <= k <= v.len() && lang(us[0])(#[trigger] v.take(k)) && spaces(v.skip(k));
        let x = v.take(k);
        assert(good(x));
        assert(ys[0] == ys[0] && expansion(a, ns[ys[0]], 0));
        lemma_ends(a.root, p, us[0], 0, x);
        assert forall|n: int| 0 <= n < us.len() implies replaced(a.root, #[trigger] us[n], n) && lang(us[n])(x) by {
            assert(0 <= ys[n] < ns.len());
            lemma_same_edits(es[ys[n]], e, w, vs[n], 0);
            lemma_one_string(e, w, vs[n], v);
            let j = choose|j: int| 0 <= j <= vs[n].len() && lang(us[n])(#[trigger] vs[n].take(j)) && spaces(vs[n].skip(j));
            assert(good(v.take(j)));
            lemma_ends(a.root, p, us[n], n, v.take(j));
            if j < k { assert(v.skip(j)[k - 1 - j] == x.last()); }
            if k < j { assert(v.skip(k)[j - 1 - k] == v.take(j).last()); }
        }
        lemma_copies_fenced(a.root, p);
        lemma_exact_fenced(a.root, p, us, x);
        assert(accepts(a.root, v));
        assert(matches(e, a.root, w, 0));
    }
}
/// A fenced anagram has as many patterns as its letters, and one more
proof fn lemma_copies_fenced(t: Ast, p: int)
    requires fenced(t, p)
    ensures count_of(t) > letters_of(t->Sequence_0@[p]->bank@).len()
{
    let ts = t->Sequence_0@;
    lemma_anagrams_in(t);
    let ss = within_each(ts);
    lemma_joined(ss, p + 1, ts.len() as int);
    let all = anagrams_in(t);
    let x = in_order(ss, p + 1);
    assert(x == in_order(ss, p) + ss[p]);
    assert(ts[p] is Anagram);
    assert(ss[p] == seq![(ts[p]->kind, ts[p]->bank@)]);
    assert(x[x.len() - 1] == ss[p][0]);
    assert(all.take(x.len() as int)[x.len() - 1] == all[x.len() - 1]);
    lemma_most(all, all.len() as int);
    assert(letters_of(all[x.len() - 1].1).len() <= widest(all, all.len() as int));
}
/// A query whose patterns are exact matches exactly what it describes
pub proof fn lemma_described(os: Seq<ExpressionAst>, ns: Seq<ExpressionAst>, es: Seq<Expression>, w: Seq<Char>)
    requires all_parsed(os), expanded(os, ns), es.len() == ns.len(), all_mean(es, ns, ns.len() as int), good(w), forall|x: int| 0 <= x < os.len() ==> exact(#[trigger] os[x])
    ensures all_find(es, w) == forall|x: int| 0 <= x < os.len() ==> describes(#[trigger] os[x], w)
{
    if forall|x: int| 0 <= x < os.len() ==> describes(#[trigger] os[x], w) { lemma_never_rejected(os, ns, es, w); }
    if all_find(es, w) {
        assert forall|x: int| 0 <= x < os.len() implies describes(#[trigger] os[x], w) by {
            assert forall|n: int| 0 <= n < count_of(os[x].root) implies #[trigger] comes_to(os[x], ns, n) by { reveal(expanded); }
            assert(parsed(os[x].root)); assert(exact(os[x]));
            lemma_all_exact(os[x], ns, es, w);
        }
    }
}
/// The trees that are searched for have no anagrams
pub proof fn lemma_all_plain(os: Seq<ExpressionAst>, ns: Seq<ExpressionAst>)
    requires all_parsed(os), expanded(os, ns)
    ensures all_plain(ns), os.len() > 0 ==> ns.len() > 0
{
    reveal(expanded);
    assert forall|y: int| 0 <= y < ns.len() implies plain((#[trigger] ns[y]).root) by {
        assert(comes_from(os, ns[y]));
        let (x, n) = choose|x: int, n: int| 0 <= x < os.len() && 0 <= n && #[trigger] expansion(os[x], ns[y], n);
        assert(parsed(os[x].root));
        lemma_replaced_plain(os[x].root, ns[y].root, n);
    }
    if os.len() > 0 { lemma_most(anagrams_in(os[0].root), anagrams_in(os[0].root).len() as int); assert(comes_to(os[0], ns, 0)); }
}
""")
    return m
