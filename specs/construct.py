"""The construction of the automaton from the syntax tree"""
import re
from build import Module
from extract import Fn, Loop

FROM = "the trait function is verified as an inherent one of another name"
FOLD = "`fold` is written out as the loop it performs"


def module():
    m = Module("construct", "expression.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::expression::*;
use super::automaton::*;
use super::parser;

pub fn rt_unreachable() -> (r: ()) requires false {}
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }

pub open spec fn sum(s: Seq<int>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { sum(s, k - 1) + s[k - 1] }
}
/// No more states than this are added for the pattern
pub open spec fn bound(ast: Ast) -> int
    decreases ast
{
    match ast {
        Ast::CharClass(b) => 1,
        Ast::Alternatives(ts) => 1 + sum(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { bound(ts@[i]) + 1 } else { 0 }), ts@.len() as int),
        Ast::Sequence(ts) => 1 + sum(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { bound(ts@[i]) + 1 } else { 0 }), ts@.len() as int),
        Ast::Substring(ts) => 1 + sum(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { bound(ts@[i]) + 1 } else { 0 }), ts@.len() as int),
        Ast::Repetition { term, min, max } => bound(*term) * repeats_(min, max) + 2,
        Ast::Anagram { kind, bank } => 0,
    }
}
pub open spec fn bounds(ts: Seq<Ast>) -> Seq<int> { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { bound(ts[i]) + 1 } else { 0 }) }
pub open spec fn cap(min: usize, max: Option<usize>) -> int { if max is Some { max->0 - min } else { 0 } }
pub open spec fn repeats_(min: usize, max: Option<usize>) -> int {
    let m = if max is Some && max->0 > min { max->0 as int } else { min as int };
    if m > 1 { m } else { 1 }
}
/// Anagrams have been replaced
pub open spec fn plain(ast: Ast) -> bool
    decreases ast
{
    match ast {
        Ast::CharClass(b) => b.wf(),
        Ast::Alternatives(ts) => forall|i: int| 0 <= i < ts@.len() ==> plain(#[trigger] ts@[i]),
        Ast::Sequence(ts) => forall|i: int| 0 <= i < ts@.len() ==> plain(#[trigger] ts@[i]),
        Ast::Substring(ts) => forall|i: int| 0 <= i < ts@.len() ==> plain(#[trigger] ts@[i]),
        Ast::Repetition { term, min, max } => plain(*term),
        Ast::Anagram { kind, bank } => false,
    }
}
pub open spec fn terms_of(ast: Ast) -> Seq<Ast> { match ast { Ast::Alternatives(ts) => ts@, Ast::Sequence(ts) => ts@, Ast::Substring(ts) => ts@, _ => Seq::empty() } }
pub proof fn lemma_lang(ast: Ast)
    ensures ast is Alternatives ==> lang(ast) == alt(langs(terms_of(ast))), ast is Sequence ==> lang(ast) == cat(langs(terms_of(ast)), 0, terms_of(ast).len() as int),
        ast is Substring ==> lang(ast) == part(langs(terms_of(ast))),
        ast is Alternatives || ast is Sequence || ast is Substring ==> bound(ast) == 1 + sum(bounds(terms_of(ast)), terms_of(ast).len() as int),
        langs(terms_of(ast)).len() == terms_of(ast).len(), forall|i: int| 0 <= i < terms_of(ast).len() ==> #[trigger] langs(terms_of(ast))[i] == lang(terms_of(ast)[i]),
{
    let ts = terms_of(ast);
    let n = ts.len();
    assert forall|s: Seq<Lang>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == lang(ts[i])) implies #[trigger] alt(s) == alt(langs(ts)) by { assert(s =~= langs(ts)); }
    assert forall|s: Seq<Lang>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == lang(ts[i])) implies #[trigger] part(s) == part(langs(ts)) by { assert(s =~= langs(ts)); }
    assert forall|s: Seq<Lang>, j: int| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == lang(ts[i])) implies #[trigger] cat(s, 0, j) == cat(langs(ts), 0, j) by { assert(s =~= langs(ts)); }
    assert forall|s: Seq<int>, j: int| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == bound(ts[i]) + 1) implies #[trigger] sum(s, j) == sum(bounds(ts), j) by { assert(s =~= bounds(ts)); }
}
pub proof fn lemma_bound(ast: Ast)
    ensures bound(ast) >= 0
    decreases ast
{
    match ast {
        Ast::Alternatives(ts) => { assert forall|i: int| 0 <= i < ts@.len() implies #[trigger] bound(ts@[i]) >= 0 by { lemma_bound(ts@[i]); } lemma_lang(ast); lemma_sum(bounds(ts@), 0, ts@.len() as int); }
        Ast::Sequence(ts) => { assert forall|i: int| 0 <= i < ts@.len() implies #[trigger] bound(ts@[i]) >= 0 by { lemma_bound(ts@[i]); } lemma_lang(ast); lemma_sum(bounds(ts@), 0, ts@.len() as int); }
        Ast::Substring(ts) => { assert forall|i: int| 0 <= i < ts@.len() implies #[trigger] bound(ts@[i]) >= 0 by { lemma_bound(ts@[i]); } lemma_lang(ast); lemma_sum(bounds(ts@), 0, ts@.len() as int); }
        Ast::Repetition { term, min, max } => { lemma_bound(*term); assert(bound(*term) * repeats_(min, max) >= 0) by (nonlinear_arith) requires bound(*term) >= 0, repeats_(min, max) >= 0; }
        _ => {}
    }
}
pub proof fn lemma_sum(s: Seq<int>, j: int, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] s[i] >= 0, j <= k
    ensures sum(s, j) <= sum(s, k), 0 <= sum(s, k)
    decreases k - j, k
{
    if k > 0 { lemma_sum(s, if j < k { j } else { k - 1 }, k - 1); }
    if j < k { lemma_sum(s, j, k - 1); }
}
pub proof fn lemma_bounds(ts: Seq<Ast>)
    ensures forall|i: int| 0 <= i < ts.len() ==> #[trigger] bounds(ts)[i] >= 1
{
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] bounds(ts)[i] >= 1 by { lemma_bound(ts[i]); }
}

// ---- what the parts of the automaton amount to

/// One more edge without a symbol, from `i` to `x`
pub open spec fn linked(ss: Seq<State>, tt: Seq<State>, i: int, x: int) -> bool {
    &&& tt.len() == ss.len() && 0 <= i < ss.len()
    &&& forall|j: int| 0 <= j < ss.len() && j != i ==> #[trigger] tt[j] == ss[j]
    &&& tt[i].char_bitset == ss[i].char_bitset && tt[i].next_state == ss[i].next_state && tt[i].epsilon_states.blocks@.len() == ss[i].epsilon_states.blocks@.len()
    &&& forall|k: int| #[trigger] eps(tt, i, k) == (eps(ss, i, k) || k == x)
}
/// One more state
pub open spec fn pushed(ss: Seq<State>, tt: Seq<State>) -> bool {
    &&& tt.len() == ss.len() + 1 && tt.drop_last() == ss && blank(tt, ss.len() as int) && tt.last().next_state == 0
    &&& tt.last().epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int)
    &&& forall|k: int| !eps(tt, ss.len() as int, k)
}
pub open spec fn same(ss: Seq<State>, tt: Seq<State>, lo: int, hi: int) -> bool { hi <= ss.len() && hi <= tt.len() && (forall|j: int| #![trigger ss[j]] #![trigger tt[j]] lo <= j < hi ==> ss[j] == tt[j]) }
pub open spec fn blank(ss: Seq<State>, i: int) -> bool { ss[i].char_bitset == CharBitset::EMPTY }
/// The sets are large enough, and no edge leads further than `hi`
pub open spec fn raw(ss: Seq<State>, lo: int, hi: int) -> bool {
    forall|i: int| lo <= i < hi ==> (#[trigger] ss[i]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && ss[i].next_state <= hi && ss[i].char_bitset.wf()
}
pub proof fn lemma_raw(ss: Seq<State>, tt: Seq<State>, lo: int, hi: int)
    requires raw(ss, lo, hi), same(ss, tt, lo, hi)
    ensures raw(tt, lo, hi)
{
    assert forall|i: int| lo <= i < hi implies (#[trigger] tt[i]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && tt[i].next_state <= hi && tt[i].char_bitset.wf() by { assert(ss[i] == tt[i]); }
}
pub proof fn lemma_closed(ss: Seq<State>, tt: Seq<State>, lo: int, hi: int)
    requires closed(ss, lo, hi), same(ss, tt, lo, hi)
    ensures closed(tt, lo, hi)
{
    assert forall|i: int, k: int| lo <= i < hi && #[trigger] eps(tt, i, k) implies lo <= k <= hi by { assert(ss[i] == tt[i]); assert(eps(ss, i, k)); }
    assert forall|i: int| lo <= i < hi && #[trigger] tt[i].char_bitset != CharBitset::EMPTY implies lo <= tt[i].next_state <= hi by { assert(ss[i] == tt[i]); }
}
/// Parts are closed together
pub proof fn lemma_closed_join(ss: Seq<State>, lo: int, mid: int, hi: int)
    requires closed(ss, lo, mid), closed(ss, mid, hi), lo <= mid <= hi
    ensures closed(ss, lo, hi)
{
    assert forall|i: int, k: int| lo <= i < hi && #[trigger] eps(ss, i, k) implies lo <= k <= hi by { }
    assert forall|i: int| lo <= i < hi && #[trigger] ss[i].char_bitset != CharBitset::EMPTY implies lo <= ss[i].next_state <= hi by { }
}
/// An edge to a state of the same part
pub proof fn lemma_linked(ss: Seq<State>, tt: Seq<State>, i: int, x: int, lo: int, hi: int)
    requires linked(ss, tt, i, x), closed(ss, lo, hi), raw(ss, lo, hi), 0 <= lo <= i < hi <= ss.len(), lo <= x <= hi
    ensures closed(tt, lo, hi), raw(tt, lo, hi)
{
    assert forall|j: int, k: int| lo <= j < hi && #[trigger] eps(tt, j, k) implies lo <= k <= hi by { if j != i { assert(tt[j] == ss[j]); assert(eps(ss, j, k)); } else { assert(eps(ss, i, k) || k == x); } }
    assert forall|j: int| lo <= j < hi && #[trigger] tt[j].char_bitset != CharBitset::EMPTY implies lo <= tt[j].next_state <= hi by { if j != i { assert(tt[j] == ss[j]); } assert(ss[j].char_bitset == tt[j].char_bitset); }
    assert forall|j: int| lo <= j < hi implies (#[trigger] tt[j]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && tt[j].next_state <= hi && tt[j].char_bitset.wf() by { if j != i { assert(tt[j] == ss[j]); } assert(ss[j].char_bitset.wf()); }
}
pub proof fn lemma_pushed(ss: Seq<State>, tt: Seq<State>, lo: int)
    requires pushed(ss, tt), closed(ss, lo, ss.len() as int), raw(ss, lo, ss.len() as int), 0 <= lo <= ss.len()
    ensures closed(tt, lo, tt.len() as int), raw(tt, lo, tt.len() as int), same(ss, tt, 0, ss.len() as int)
{
    let n = ss.len() as int;
    lemma_consts();
    assert forall|j: int| 0 <= j < n implies #[trigger] ss[j] == tt[j] by { assert(tt.drop_last()[j] == tt[j]); }
    lemma_closed(ss, tt, lo, n);
    assert(closed(tt, n, n + 1));
    lemma_closed_join(tt, lo, n, n + 1);
    assert forall|j: int| lo <= j < n + 1 implies (#[trigger] tt[j]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && tt[j].next_state <= n + 1 && tt[j].char_bitset.wf() by { if j < n { assert(ss[j] == tt[j]); } }
}
/// At the end, only the empty string is left
pub proof fn lemma_end(ss: Seq<State>, lo: int, hi: int, n: int, v: Seq<Char>)
    requires walk(ss, lo, hi, hi, n)(hi, v)
    ensures v.len() == 0
{
    if n > 0 { assert(move_(ss, lo, hi, walk(ss, lo, hi, hi, n - 1), hi, v)); }
}
/// From a state without a symbol
pub proof fn lemma_blank(ss: Seq<State>, lo: int, hi: int, t: int, n: int, i: int, v: Seq<Char>) -> (k: int)
    requires walk(ss, lo, hi, t, n)(i, v), blank(ss, i), i != t
    ensures n > 0, eps(ss, i, k), walk(ss, lo, hi, t, n - 1)(k, v), lo <= i < hi
{
    lemma_consts();
    assert(n > 0);
    assert(move_(ss, lo, hi, walk(ss, lo, hi, t, n - 1), i, v));
    choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, lo, hi, t, n - 1)(k, v)
}

// ---- classes, sequences

pub proof fn lemma_char_class(ss: Seq<State>, a: int, b: CharBitset)
    requires 0 <= a, ss.len() == a + 1, ss[a].char_bitset == b, ss[a].next_state == a + 1, forall|k: int| !eps(ss, a, k)
    ensures frag(ss, a, a + 1, one(b))
{
    assert forall|v: Seq<Char>| #[trigger] one(b)(v) == walks(ss, a, a + 1, a + 1, a, v) by {
        if one(b)(v) {
            lemma_here(ss, a, a + 1, a + 1, v.skip(1));
            lemma_char_step(ss, a, a + 1, a + 1, a, v);
        }
        if walks(ss, a, a + 1, a + 1, a, v) {
            let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, a + 1, a + 1, n)(a, v);
            assert(n > 0);
            assert(move_(ss, a, a + 1, walk(ss, a, a + 1, a + 1, n - 1), a, v));
            lemma_end(ss, a, a + 1, n - 1, v.skip(1));
        }
    }
}
/// Nothing
pub proof fn lemma_nothing(ss: Seq<State>, a: int)
    requires 0 <= a <= ss.len()
    ensures frag(ss, a, a, |v: Seq<Char>| v.len() == 0)
{
    assert forall|v: Seq<Char>| (v.len() == 0) == walks(ss, a, a, a, a, v) by {
        if v.len() == 0 { lemma_here(ss, a, a, a, v); }
        if walks(ss, a, a, a, a, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, a, a, n)(a, v); lemma_end(ss, a, a, n, v); }
    }
}
/// A state which can't be left
pub proof fn lemma_stuck(ss: Seq<State>, a: int, l: Lang)
    requires 0 <= a < ss.len(), blank(ss, a), forall|k: int| !eps(ss, a, k), forall|v: Seq<Char>| !#[trigger] l(v)
    ensures frag(ss, a, a + 1, l)
{
    assert forall|v: Seq<Char>| #[trigger] l(v) == walks(ss, a, a + 1, a + 1, a, v) by {
        if walks(ss, a, a + 1, a + 1, a, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, a + 1, a + 1, n)(a, v); let k = lemma_blank(ss, a, a + 1, a + 1, n, a, v); }
    }
}
pub open spec fn equal(p: Lang, q: Lang) -> bool { forall|v: Seq<Char>| #[trigger] p(v) == q(v) }
pub proof fn lemma_frag_equal(ss: Seq<State>, a: int, b: int, p: Lang, q: Lang)
    requires frag(ss, a, b, p), equal(p, q)
    ensures frag(ss, a, b, q)
{
    assert forall|v: Seq<Char>| #[trigger] q(v) == walks(ss, a, b, b, a, v) by { assert(p(v) == q(v)); }
}
/// One after the other
pub proof fn lemma_then(ss: Seq<State>, a: int, m: int, b: int, p: Lang, q: Lang)
    requires frag(ss, a, m, p), frag(ss, m, b, q)
    ensures frag(ss, a, b, |v: Seq<Char>| split(p, q, v))
{
    lemma_closed_join(ss, a, m, b);
    assert forall|v: Seq<Char>| split(p, q, v) == walks(ss, a, b, b, a, v) by {
        if split(p, q, v) {
            let k = choose|k: int| 0 <= k <= v.len() && p(#[trigger] v.take(k)) && q(v.skip(k));
            let w = v.skip(k);
            assert(w.take(w.len() as int) =~= w);
            lemma_here(ss, a, b, b, w.skip(w.len() as int));
            lemma_into(ss, m, b, q, a, b, b, w.len() as int, w);
            lemma_into(ss, a, m, p, a, b, b, k, v);
        }
        if walks(ss, a, b, b, a, v) {
            let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, b, b, n)(a, v);
            let r = lemma_through(ss, a, m, p, a, b, b, n, v);
            let w = v.skip(r.0);
            let r2 = lemma_through(ss, m, b, q, a, b, b, r.1, w);
            lemma_end(ss, a, b, r2.1, w.skip(r2.0));
            assert(w.take(r2.0) =~= w);
            assert(p(v.take(r.0)) && q(v.skip(r.0)));
        }
    }
}
pub proof fn lemma_split_end(p: Lang, q: Lang)
    requires forall|v: Seq<Char>| #[trigger] q(v) == (v.len() == 0)
    ensures equal(|v: Seq<Char>| split(p, q, v), p)
{
    assert forall|v: Seq<Char>| split(p, q, v) == #[trigger] p(v) by {
        if p(v) { assert(v.take(v.len() as int) =~= v); assert(p(v.take(v.len() as int)) && q(v.skip(v.len() as int))); }
        if split(p, q, v) { let k = choose|k: int| 0 <= k <= v.len() && p(#[trigger] v.take(k)) && q(v.skip(k)); assert(v.take(k) =~= v); }
    }
}
pub proof fn lemma_cat_last(ls: Seq<Lang>, i: int, j: int)
    requires i <= j
    ensures equal(cat(ls, i, j + 1), |v: Seq<Char>| split(cat(ls, i, j), ls[j], v))
    decreases j - i
{
    let c = cat(ls, i, j + 1);
    let d = cat(ls, i, j);
    if i == j {
        lemma_split_end(ls[i], cat(ls, i + 1, i + 1));
        assert forall|v: Seq<Char>| #[trigger] c(v) == split(d, ls[j], v) by {
            assert(c(v) == split(ls[i], cat(ls, i + 1, i + 1), v));
            assert((|v: Seq<Char>| split(ls[i], cat(ls, i + 1, i + 1), v))(v) == ls[i](v));
            if ls[j](v) { assert(v.skip(0) =~= v); assert(d(v.take(0)) && ls[j](v.skip(0))); }
            if split(d, ls[j], v) { let k = choose|k: int| 0 <= k <= v.len() && d(#[trigger] v.take(k)) && ls[j](v.skip(k)); assert(k == 0); assert(v.skip(0) =~= v); }
        }
    } else {
        lemma_cat_last(ls, i + 1, j);
        let e = cat(ls, i + 1, j);
        assert forall|v: Seq<Char>| #[trigger] c(v) == split(d, ls[j], v) by {
            if c(v) {
                assert(split(ls[i], cat(ls, i + 1, j + 1), v));
                let k = choose|k: int| 0 <= k <= v.len() && ls[i](#[trigger] v.take(k)) && cat(ls, i + 1, j + 1)(v.skip(k));
                let w = v.skip(k);
                assert(split(e, ls[j], w));
                let h = choose|h: int| 0 <= h <= w.len() && e(#[trigger] w.take(h)) && ls[j](w.skip(h));
                let x = v.take(k + h);
                assert(x.take(k) =~= v.take(k) && x.skip(k) =~= w.take(h) && w.skip(h) =~= v.skip(k + h));
                assert(split(ls[i], e, x));
                assert(d(x));
                assert(split(d, ls[j], v));
            }
            if split(d, ls[j], v) {
                let g = choose|g: int| 0 <= g <= v.len() && d(#[trigger] v.take(g)) && ls[j](v.skip(g));
                let x = v.take(g);
                assert(split(ls[i], e, x));
                let k = choose|k: int| 0 <= k <= x.len() && ls[i](#[trigger] x.take(k)) && e(x.skip(k));
                let w = v.skip(k);
                assert(w.take(g - k) =~= x.skip(k) && w.skip(g - k) =~= v.skip(g) && x.take(k) =~= v.take(k));
                assert(split(e, ls[j], w));
                assert(cat(ls, i + 1, j + 1)(w));
                assert(split(ls[i], cat(ls, i + 1, j + 1), v));
            }
        }
    }
}
/// One more term of a sequence
pub proof fn lemma_sequence(ss: Seq<State>, a: int, m: int, b: int, ls: Seq<Lang>, i: int)
    requires frag(ss, a, m, cat(ls, 0, i)), frag(ss, m, b, ls[i]), 0 <= i
    ensures frag(ss, a, b, cat(ls, 0, i + 1))
{
    lemma_then(ss, a, m, b, cat(ls, 0, i), ls[i]);
    lemma_cat_last(ls, 0, i);
    lemma_frag_equal(ss, a, b, |v: Seq<Char>| split(cat(ls, 0, i), ls[i], v), cat(ls, 0, i + 1));
}

// ---- alternatives and substrings: parts side by side

pub open spec fn starts_at(ns: Seq<int>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] ns[i] == x }
/// The part `i` is at `ns[i]`, and ends in a state before `ns[i + 1]`
pub open spec fn pieces(ss: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int) -> bool {
    &&& 0 <= a && 0 <= k && ns.len() == k + 1 && ns[0] == a + 1 && ns[k] == ss.len() && blank(ss, a) && k <= ls.len()
    &&& forall|i: int, j: int| 0 <= i < j <= k ==> #[trigger] ns[i] < #[trigger] ns[j]
    &&& forall|i: int| 0 <= i < k ==> frag(ss, #[trigger] ns[i], ns[i + 1] - 1, ls[i]) && blank(ss, ns[i + 1] - 1)
}
/// The ends of the parts have these edges, for the first `d` ones
pub open spec fn ends(ss: Seq<State>, ns: Seq<int>, k: int, d: int, more: bool) -> bool {
    &&& forall|i: int, x: int| 0 <= i < d ==> #[trigger] eps(ss, ns[i + 1] - 1, x) == (x == ss.len() || (more && x == ns[i + 1]))
    &&& forall|i: int, x: int| d <= i < k ==> !#[trigger] eps(ss, ns[i + 1] - 1, x)
}
pub proof fn lemma_pieces_update(ss: Seq<State>, tt: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int, p: int)
    requires pieces(ss, a, ns, ls, k), tt.len() == ss.len(), forall|j: int| 0 <= j < ss.len() && j != p ==> #[trigger] tt[j] == ss[j], tt[p].char_bitset == ss[p].char_bitset,
        p == a || exists|i: int| 0 <= i < k && p == #[trigger] ns[i + 1] - 1,
    ensures pieces(tt, a, ns, ls, k)
{
    assert forall|i: int| 0 <= i < k implies frag(tt, #[trigger] ns[i], ns[i + 1] - 1, ls[i]) && blank(tt, ns[i + 1] - 1) by {
        assert(ns[0] <= ns[i]);
        assert(ns[i + 1] <= ns[k]);
        assert(!(ns[i] <= p < ns[i + 1] - 1)) by {
            if p != a {
                let q = choose|q: int| 0 <= q < k && p == #[trigger] ns[q + 1] - 1;
                if q < i { assert(ns[q + 1] <= ns[i]); }
                if q > i { assert(ns[i + 1] <= ns[q]); assert(ns[q] < ns[q + 1]); }
            }
        }
        assert(frag(ss, ns[i], ns[i + 1] - 1, ls[i]));
        lemma_frag_same(ss, tt, ns[i], ns[i + 1] - 1, ls[i]);
        assert(tt[ns[i + 1] - 1].char_bitset == ss[ns[i + 1] - 1].char_bitset);
    }
}
pub proof fn lemma_pieces_push(ss: Seq<State>, tt: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int)
    requires pieces(ss, a, ns, ls, k), same(ss, tt, 0, ss.len() as int), k < ls.len(), tt.len() > ss.len(), frag(tt, ss.len() as int, tt.len() - 1, ls[k]), blank(tt, tt.len() - 1),
        ends(ss, ns, k, 0, false), forall|x: int| !#[trigger] eps(tt, tt.len() - 1, x),
        forall|x: int| #[trigger] eps(ss, a, x) == starts_at(ns, k + 1, x),
    ensures pieces(tt, a, ns.push(tt.len() as int), ls, k + 1), ends(tt, ns.push(tt.len() as int), k + 1, 0, false),
        forall|x: int| #[trigger] eps(tt, a, x) == starts_at(ns.push(tt.len() as int), k + 1, x),
{
    let ms = ns.push(tt.len() as int);
    assert(ss[a] == tt[a]);
    assert forall|i: int, j: int| 0 <= i < j <= k + 1 implies #[trigger] ms[i] < #[trigger] ms[j] by { if j <= k { assert(ns[i] < ns[j]); } else if i < k { assert(ns[i] < ns[k]); } }
    assert forall|i: int| 0 <= i < k + 1 implies frag(tt, #[trigger] ms[i], ms[i + 1] - 1, ls[i]) && blank(tt, ms[i + 1] - 1) by {
        if i < k {
            assert(frag(ss, ns[i], ns[i + 1] - 1, ls[i]));
            assert(ns[0] <= ns[i]);
            assert(ns[i + 1] <= ns[k]);
            lemma_frag_same(ss, tt, ns[i], ns[i + 1] - 1, ls[i]);
            assert(ss[ns[i + 1] - 1] == tt[ns[i + 1] - 1]);
        }
    }
    assert forall|i: int, x: int| 0 <= i < k + 1 implies !#[trigger] eps(tt, ms[i + 1] - 1, x) by {
        if i < k { assert(ns[0] < ns[i + 1] <= ns[k]); assert(!eps(ss, ns[i + 1] - 1, x)); assert(ss[ns[i + 1] - 1] == tt[ns[i + 1] - 1]); }
    }
    assert forall|x: int| #[trigger] eps(tt, a, x) == starts_at(ms, k + 1, x) by {
        assert(eps(tt, a, x) == eps(ss, a, x));
        if starts_at(ns, k + 1, x) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] ns[i] == x; assert(ms[i] == x); }
        if starts_at(ms, k + 1, x) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] ms[i] == x; assert(ns[i] == x); }
    }
}
pub proof fn lemma_alternatives(ss: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int)
    requires pieces(ss, a, ns, ls, k), ends(ss, ns, k, k, false), forall|x: int| #[trigger] eps(ss, a, x) == starts_at(ns, k, x), closed(ss, a, ss.len() as int), ls.len() == k,
    ensures frag(ss, a, ss.len() as int, alt(ls))
{
    let b = ss.len() as int;
    assert(ns[0] <= b) by { if k > 0 { assert(ns[0] < ns[k]); } }
    assert forall|v: Seq<Char>| #[trigger] alt(ls)(v) == walks(ss, a, b, b, a, v) by {
        if alt(ls)(v) {
            let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i](v);
            assert(frag(ss, ns[i], ns[i + 1] - 1, ls[i]));
            assert(ns[0] <= ns[i] && ns[i + 1] <= ns[k]);
            let z = v.len() as int;
            assert(v.take(z) =~= v);
            lemma_here(ss, a, b, b, v.skip(z));
            assert(eps(ss, ns[i + 1] - 1, b));
            lemma_eps_step(ss, a, b, b, ns[i + 1] - 1, b, v.skip(z));
            lemma_into(ss, ns[i], ns[i + 1] - 1, ls[i], a, b, b, z, v);
            assert(starts_at(ns, k, ns[i]));
            assert(eps(ss, a, ns[i]));
            lemma_eps_step(ss, a, b, b, a, ns[i], v);
        }
        if walks(ss, a, b, b, a, v) {
            let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, b, b, n)(a, v);
            let x = lemma_blank(ss, a, b, b, n, a, v);
            assert(starts_at(ns, k, x));
            let i = choose|i: int| 0 <= i < k && #[trigger] ns[i] == x;
            assert(frag(ss, ns[i], ns[i + 1] - 1, ls[i]));
            assert(ns[0] <= ns[i] && ns[i + 1] <= ns[k]);
            let r = lemma_through(ss, ns[i], ns[i + 1] - 1, ls[i], a, b, b, n - 1, v);
            let y = lemma_blank(ss, a, b, b, r.1, ns[i + 1] - 1, v.skip(r.0));
            assert(eps(ss, ns[i + 1] - 1, y));
            lemma_end(ss, a, b, r.1 - 1, v.skip(r.0));
            assert(v.take(r.0) =~= v);
            assert(ls[i](v));
        }
    }
}
pub open spec fn from_(ls: Seq<Lang>, i: int, v: Seq<Char>) -> bool { exists|j: int| i <= j <= ls.len() && #[trigger] cat(ls, i, j)(v) }
pub proof fn lemma_substring_sound(ss: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int, n: int, i: int, v: Seq<Char>)
    requires pieces(ss, a, ns, ls, k), ends(ss, ns, k, k, true), closed(ss, a, ss.len() as int), ls.len() == k, 0 <= i <= k, walk(ss, a, ss.len() as int, ss.len() as int, n)(ns[i], v),
    ensures from_(ls, i, v)
    decreases k - i
{
    let b = ss.len() as int;
    if i == k {
        lemma_end(ss, a, b, n, v);
        assert(cat(ls, k, k)(v));
    } else {
        assert(frag(ss, ns[i], ns[i + 1] - 1, ls[i]));
        assert(ns[0] <= ns[i] && ns[i + 1] <= ns[k]);
        let r = lemma_through(ss, ns[i], ns[i + 1] - 1, ls[i], a, b, b, n, v);
        let w = v.skip(r.0);
        let y = lemma_blank(ss, a, b, b, r.1, ns[i + 1] - 1, w);
        assert(eps(ss, ns[i + 1] - 1, y));
        let j = if y == ns[i + 1] {
            lemma_substring_sound(ss, a, ns, ls, k, r.1 - 1, i + 1, w);
            choose|j: int| i + 1 <= j <= ls.len() && #[trigger] cat(ls, i + 1, j)(w)
        } else {
            lemma_end(ss, a, b, r.1 - 1, w);
            assert(cat(ls, i + 1, i + 1)(w));
            i + 1
        };
        assert(split(ls[i], cat(ls, i + 1, j), v));
        assert(cat(ls, i, j)(v));
    }
}
pub proof fn lemma_substring_complete(ss: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int, i: int, j: int, v: Seq<Char>)
    requires pieces(ss, a, ns, ls, k), ends(ss, ns, k, k, true), closed(ss, a, ss.len() as int), ls.len() == k, 0 <= i < j <= k, cat(ls, i, j)(v),
    ensures walks(ss, a, ss.len() as int, ss.len() as int, ns[i], v)
    decreases k - i
{
    let b = ss.len() as int;
    assert(split(ls[i], cat(ls, i + 1, j), v));
    let z = choose|z: int| 0 <= z <= v.len() && ls[i](#[trigger] v.take(z)) && cat(ls, i + 1, j)(v.skip(z));
    let w = v.skip(z);
    assert(frag(ss, ns[i], ns[i + 1] - 1, ls[i]));
    assert(ns[0] <= ns[i] && ns[i + 1] <= ns[k]);
    if i + 1 == j {
        lemma_here(ss, a, b, b, w);
        assert(eps(ss, ns[i + 1] - 1, b));
        lemma_eps_step(ss, a, b, b, ns[i + 1] - 1, b, w);
    } else {
        lemma_substring_complete(ss, a, ns, ls, k, i + 1, j, w);
        assert(eps(ss, ns[i + 1] - 1, ns[i + 1]));
        lemma_eps_step(ss, a, b, b, ns[i + 1] - 1, ns[i + 1], w);
    }
    lemma_into(ss, ns[i], ns[i + 1] - 1, ls[i], a, b, b, z, v);
}
pub proof fn lemma_substring(ss: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int)
    requires pieces(ss, a, ns, ls, k), ends(ss, ns, k, k, true), forall|x: int| #[trigger] eps(ss, a, x) == (x == ss.len() || starts_at(ns, k, x)), closed(ss, a, ss.len() as int), ls.len() == k,
    ensures frag(ss, a, ss.len() as int, part(ls))
{
    let b = ss.len() as int;
    assert(ns[0] <= b) by { if k > 0 { assert(ns[0] < ns[k]); } }
    assert forall|v: Seq<Char>| #[trigger] part(ls)(v) == walks(ss, a, b, b, a, v) by {
        if part(ls)(v) {
            let (i, j) = choose|i: int, j: int| 0 <= i <= j <= ls.len() && #[trigger] cat(ls, i, j)(v);
            if i == j {
                lemma_here(ss, a, b, b, v);
                assert(eps(ss, a, b));
                lemma_eps_step(ss, a, b, b, a, b, v);
            } else {
                lemma_substring_complete(ss, a, ns, ls, k, i, j, v);
                assert(starts_at(ns, k, ns[i]));
                assert(eps(ss, a, ns[i]));
                lemma_eps_step(ss, a, b, b, a, ns[i], v);
            }
        }
        if walks(ss, a, b, b, a, v) {
            let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, b, b, n)(a, v);
            let x = lemma_blank(ss, a, b, b, n, a, v);
            if starts_at(ns, k, x) {
                let i = choose|i: int| 0 <= i < k && #[trigger] ns[i] == x;
                lemma_substring_sound(ss, a, ns, ls, k, n - 1, i, v);
                let j = choose|j: int| i <= j <= ls.len() && #[trigger] cat(ls, i, j)(v);
                assert(cat(ls, i, j)(v));
            } else {
                lemma_end(ss, a, b, n - 1, v);
                assert(cat(ls, 0, 0)(v));
            }
        }
    }
}

// ---- repetitions

/// Copies of a part one after the other
pub open spec fn copies(ss: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int) -> bool {
    &&& 0 <= a && 0 <= k && ns.len() == k + 1 && ns[0] == a + 1 && blank(ss, a)
    &&& forall|i: int| 0 <= i <= k ==> a < #[trigger] ns[i] <= ns[k]
    &&& forall|i: int| 0 <= i < k ==> frag(ss, #[trigger] ns[i], ns[i + 1], l)
}
pub proof fn lemma_copies(ss: Seq<State>, tt: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int)
    requires copies(ss, a, ns, l, k), ns[k] <= ss.len(), same(ss, tt, a + 1, ns[k]), tt[a].char_bitset == ss[a].char_bitset
    ensures copies(tt, a, ns, l, k)
{
    assert forall|i: int| 0 <= i < k implies frag(tt, #[trigger] ns[i], ns[i + 1], l) by { assert(frag(ss, ns[i], ns[i + 1], l)); assert(a < ns[i] && ns[i + 1] <= ns[k]); lemma_frag_same(ss, tt, ns[i], ns[i + 1], l); }
}
pub proof fn lemma_copies_push(tt: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int, b: int)
    requires copies(tt, a, ns, l, k), ns[k] <= b, frag(tt, ns[k], b, l)
    ensures copies(tt, a, ns.push(b), l, k + 1)
{
    let ms = ns.push(b);
    assert forall|i: int| 0 <= i < k + 1 implies frag(tt, #[trigger] ms[i], ms[i + 1], l) by { if i < k { assert(frag(tt, ns[i], ns[i + 1], l)); } }
    assert forall|i: int| 0 <= i <= k + 1 implies a < #[trigger] ms[i] <= ms[k + 1] by { if i <= k { assert(a < ns[i] <= ns[k]); } }
}
pub open spec fn most(min: usize, max: Option<usize>) -> int { (if max is Some { max->0 as int } else { min as int }) - min }
pub open spec fn rep_edges(ss: Seq<State>, a: int, ns: Seq<int>, k: int, min: usize, max: Option<usize>) -> bool {
    &&& copies_from(ss, a, ns, k, k, min, max)
    &&& blank(ss, ns[k]) && ss.len() == ns[k] + 1 && k == repeats_(min, max) && (max is Some ==> min <= max->0 && max->0 > 0)
    &&& forall|x: int| #[trigger] eps(ss, ns[k], x) == (x == ns[k] + 1 || (max is None && x == ns[k - 1]))
}
/// The copies can be entered at these places
pub open spec fn copies_from(ss: Seq<State>, a: int, ns: Seq<int>, k: int, r: int, min: usize, max: Option<usize>) -> bool {
    forall|x: int| #[trigger] eps(ss, a, x) == (enters(ns, k, most(min, max), x) || (k == r && min == 0 && x == ns[k]))
}
pub open spec fn enters(ns: Seq<int>, k: int, m: int, x: int) -> bool { exists|i: int| 0 <= i < k && i <= m && #[trigger] ns[i] == x }
pub open spec fn times(q: int, r: int, max: Option<usize>) -> bool { q >= r && (max is Some ==> q == r) }
pub proof fn lemma_rep_sound(ss: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int, min: usize, max: Option<usize>, n: int, i: int, v: Seq<Char>) -> (q: int)
    requires copies(ss, a, ns, l, k), rep_edges(ss, a, ns, k, min, max), 0 <= i <= k, walk(ss, a, ss.len() as int, ss.len() as int, n)(ns[i], v),
    ensures times(q, k - i, max), pow(l, q)(v), q >= 0
    decreases n, k - i
{
    let b = ss.len() as int;
    assert(ns[i] <= ns[k]);
    if i == k {
        let x = lemma_blank(ss, a, b, b, n, ns[k], v);
        assert(eps(ss, ns[k], x));
        if x == b {
            lemma_end(ss, a, b, n - 1, v);
            assert(pow(l, 0)(v));
            0
        } else {
            lemma_rep_sound(ss, a, ns, l, k, min, max, n - 1, k - 1, v)
        }
    } else {
        assert(frag(ss, ns[i], ns[i + 1], l));
        assert(a < ns[i] && ns[i + 1] <= ns[k]);
        if n < 0 { assert(walk(ss, a, b, b, n)(ns[i], v)); assert(ns[i] == b); }
        let r = lemma_through(ss, ns[i], ns[i + 1], l, a, b, b, n, v);
        let q = lemma_rep_sound(ss, a, ns, l, k, min, max, r.1, i + 1, v.skip(r.0));
        assert(split(l, pow(l, q), v));
        assert(pow(l, q + 1)(v));
        q + 1
    }
}
pub proof fn lemma_rep_complete(ss: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int, min: usize, max: Option<usize>, q: int, i: int, v: Seq<Char>)
    requires copies(ss, a, ns, l, k), rep_edges(ss, a, ns, k, min, max), 0 <= i <= k, times(q, k - i, max), pow(l, q)(v), q >= 0
    ensures walks(ss, a, ss.len() as int, ss.len() as int, ns[i], v)
    decreases q, i
{
    let b = ss.len() as int;
    assert(a < ns[i] <= ns[k]);
    if i == k {
        if q == 0 {
            lemma_here(ss, a, b, b, v);
            assert(eps(ss, ns[k], b));
            lemma_eps_step(ss, a, b, b, ns[k], b, v);
        } else {
            lemma_rep_complete(ss, a, ns, l, k, min, max, q, k - 1, v);
            assert(eps(ss, ns[k], ns[k - 1]));
            lemma_eps_step(ss, a, b, b, ns[k], ns[k - 1], v);
        }
    } else {
        assert(split(l, pow(l, q - 1), v));
        let z = choose|z: int| 0 <= z <= v.len() && l(#[trigger] v.take(z)) && pow(l, q - 1)(v.skip(z));
        lemma_rep_complete(ss, a, ns, l, k, min, max, q - 1, i + 1, v.skip(z));
        assert(frag(ss, ns[i], ns[i + 1], l));
        assert(ns[i + 1] <= ns[k]);
        lemma_into(ss, ns[i], ns[i + 1], l, a, b, b, z, v);
    }
}
pub proof fn lemma_repetition(ss: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int, min: usize, max: Option<usize>)
    requires copies(ss, a, ns, l, k), rep_edges(ss, a, ns, k, min, max), closed(ss, a, ss.len() as int)
    ensures frag(ss, a, ss.len() as int, rep(l, min, max))
{
    let b = ss.len() as int;
    let m = most(min, max);
    assert(a < ns[0] <= ns[k]);
    assert forall|v: Seq<Char>| #[trigger] rep(l, min, max)(v) == walks(ss, a, b, b, a, v) by {
        if rep(l, min, max)(v) {
            let q = choose|q: int| #![trigger pow(l, q)] within(q, min, max) && pow(l, q)(v);
            let i = if q == 0 { k } else if max is Some { k - q } else { 0 };
            lemma_rep_complete(ss, a, ns, l, k, min, max, q, i, v);
            assert(enters(ns, k, m, ns[i]) || i == k);
            assert(eps(ss, a, ns[i]));
            lemma_eps_step(ss, a, b, b, a, ns[i], v);
        }
        if walks(ss, a, b, b, a, v) {
            let n = choose|n: int| 0 <= n && #[trigger] walk(ss, a, b, b, n)(a, v);
            let x = lemma_blank(ss, a, b, b, n, a, v);
            assert(eps(ss, a, x));
            let i = if enters(ns, k, m, x) { choose|i: int| 0 <= i < k && i <= m && #[trigger] ns[i] == x } else { k };
            let q = lemma_rep_sound(ss, a, ns, l, k, min, max, n - 1, i, v);
            assert(within(q, min, max) && pow(l, q)(v));
        }
    }
}
pub proof fn lemma_raw_more(ss: Seq<State>, lo: int, mid: int, hi: int)
    requires raw(ss, lo, mid), raw(ss, mid, hi), mid <= hi
    ensures raw(ss, lo, hi)
{
    assert forall|i: int| lo <= i < hi implies (#[trigger] ss[i]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && ss[i].next_state <= hi && ss[i].char_bitset.wf() by { }
}
/// One more part, and the state that ends it
pub proof fn lemma_piece(s1: Seq<State>, s2: Seq<State>, s3: Seq<State>, s4: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int)
    requires pieces(s1, a, ns, ls, k), ends(s1, ns, k, 0, false), closed(s1, a, s1.len() as int), raw(s1, a, s1.len() as int), forall|x: int| #[trigger] eps(s1, a, x) == starts_at(ns, k, x),
        linked(s1, s2, a, s1.len() as int), same(s2, s3, 0, s2.len() as int), raw(s3, s2.len() as int, s3.len() as int), frag(s3, s2.len() as int, s3.len() as int, ls[k]), pushed(s3, s4), k < ls.len(),
    ensures pieces(s4, a, ns.push(s4.len() as int), ls, k + 1), ends(s4, ns.push(s4.len() as int), k + 1, 0, false), closed(s4, a, s4.len() as int), raw(s4, a, s4.len() as int),
        forall|x: int| #[trigger] eps(s4, a, x) == starts_at(ns.push(s4.len() as int), k + 1, x), same(s1, s4, 0, a)
{
    let n = s1.len() as int;
    assert(ns[0] <= ns[k]) by { if k > 0 { assert(ns[0] < ns[k]); } }
    lemma_linked(s1, s2, a, n, a, n);
    lemma_pieces_update(s1, s2, a, ns, ls, k, a);
    assert(ends(s2, ns, k, 0, false)) by {
        assert forall|i: int, x: int| 0 <= i < k implies !#[trigger] eps(s2, ns[i + 1] - 1, x) by { assert(ns[0] < ns[i + 1] <= ns[k]); assert(!eps(s1, ns[i + 1] - 1, x)); }
    }
    assert forall|x: int| #[trigger] eps(s2, a, x) == starts_at(ns, k + 1, x) by {
        assert(eps(s2, a, x) == (eps(s1, a, x) || x == n));
        if starts_at(ns, k, x) { let i = choose|i: int| 0 <= i < k && #[trigger] ns[i] == x; assert(0 <= i < k + 1); }
        if x == n { assert(ns[k] == x); }
    }
    lemma_closed(s2, s3, a, n);
    lemma_closed_join(s3, a, n, s3.len() as int);
    lemma_raw(s2, s3, a, n);
    lemma_raw_more(s3, a, n, s3.len() as int);
    lemma_pushed(s3, s4, a);
    lemma_frag_same(s3, s4, n, s3.len() as int, ls[k]);
    assert(same(s2, s4, 0, n));
    lemma_pieces_push(s2, s4, a, ns, ls, k);
}
/// The end of the part `j` gets its edges
pub proof fn lemma_ends(ss: Seq<State>, tt: Seq<State>, a: int, ns: Seq<int>, ls: Seq<Lang>, k: int, j: int, more: bool)
    requires pieces(ss, a, ns, ls, k), ends(ss, ns, k, j, more), closed(ss, a, ss.len() as int), raw(ss, a, ss.len() as int), tt.len() == ss.len(), 0 <= j < k,
        forall|i: int| 0 <= i < ss.len() && i != ns[j + 1] - 1 ==> #[trigger] tt[i] == ss[i],
        tt[ns[j + 1] - 1].char_bitset == ss[ns[j + 1] - 1].char_bitset, tt[ns[j + 1] - 1].next_state == ss[ns[j + 1] - 1].next_state,
        tt[ns[j + 1] - 1].epsilon_states.blocks@.len() == ss[ns[j + 1] - 1].epsilon_states.blocks@.len(),
        forall|x: int| #[trigger] eps(tt, ns[j + 1] - 1, x) == (x == ss.len() || (more && x == ns[j + 1])),
    ensures pieces(tt, a, ns, ls, k), ends(tt, ns, k, j + 1, more), closed(tt, a, tt.len() as int), raw(tt, a, tt.len() as int), tt[a] == ss[a], same(ss, tt, 0, a + 1)
{
    let p = ns[j + 1] - 1;
    assert(ns[0] < ns[j + 1] <= ns[k]);
    lemma_pieces_update(ss, tt, a, ns, ls, k, p);
    assert forall|i: int, x: int| 0 <= i < j + 1 implies #[trigger] eps(tt, ns[i + 1] - 1, x) == (x == tt.len() || (more && x == ns[i + 1])) by { if i < j { assert(ns[i + 1] < ns[j + 1]); assert(ns[0] < ns[i + 1] <= ns[k]); assert(eps(tt, ns[i + 1] - 1, x) == eps(ss, ns[i + 1] - 1, x)); } }
    assert forall|i: int, x: int| j + 1 <= i < k implies !#[trigger] eps(tt, ns[i + 1] - 1, x) by { assert(ns[j + 1] < ns[i + 1]); assert(ns[0] < ns[i + 1] <= ns[k]); assert(eps(tt, ns[i + 1] - 1, x) == eps(ss, ns[i + 1] - 1, x)); }
    let n = ss.len() as int;
    assert forall|i: int, x: int| a <= i < n && #[trigger] eps(tt, i, x) implies a <= x <= n by { if i != p { assert(tt[i] == ss[i]); assert(eps(ss, i, x)); } }
    assert forall|i: int| a <= i < n && #[trigger] tt[i].char_bitset != CharBitset::EMPTY implies a <= tt[i].next_state <= n by { if i != p { assert(tt[i] == ss[i]); } assert(ss[i].char_bitset == tt[i].char_bitset); }
    assert forall|i: int| a <= i < n implies (#[trigger] tt[i]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && tt[i].next_state <= n && tt[i].char_bitset.wf() by { if i != p { assert(tt[i] == ss[i]); } assert(ss[i].char_bitset.wf()); }
}
/// One more copy
pub proof fn lemma_copy(s2: Seq<State>, s3: Seq<State>, a: int, ns: Seq<int>, l: Lang, k: int)
    requires copies(s2, a, ns, l, k), ns[k] == s2.len(), closed(s2, a, s2.len() as int), raw(s2, a, s2.len() as int),
        same(s2, s3, 0, s2.len() as int), raw(s3, s2.len() as int, s3.len() as int), frag(s3, s2.len() as int, s3.len() as int, l),
    ensures copies(s3, a, ns.push(s3.len() as int), l, k + 1), closed(s3, a, s3.len() as int), raw(s3, a, s3.len() as int), s3[a] == s2[a]
{
    let n = s2.len() as int;
    assert(a < ns[0] <= n);
    lemma_closed(s2, s3, a, n);
    lemma_closed_join(s3, a, n, s3.len() as int);
    lemma_raw(s2, s3, a, n);
    lemma_raw_more(s3, a, n, s3.len() as int);
    lemma_copies(s2, s3, a, ns, l, k);
    lemma_copies_push(s3, a, ns, l, k, s3.len() as int);
}
pub proof fn lemma_enters(ns: Seq<int>, k: int, m: int, b: int)
    requires ns.len() == k + 1, 0 <= k
    ensures forall|x: int| #[trigger] enters(ns.push(b), k + 1, m, x) == (enters(ns, k, m, x) || (k <= m && x == ns[k]))
{
    let ms = ns.push(b);
    assert forall|x: int| #[trigger] enters(ms, k + 1, m, x) == (enters(ns, k, m, x) || (k <= m && x == ns[k])) by {
        if enters(ms, k + 1, m, x) { let i = choose|i: int| 0 <= i < k + 1 && i <= m && #[trigger] ms[i] == x; assert(ns[i] == x); }
        if enters(ns, k, m, x) { let i = choose|i: int| 0 <= i < k && i <= m && #[trigger] ns[i] == x; assert(ms[i] == x); }
        if k <= m && x == ns[k] { assert(ms[k] == x); }
    }
}
/// None, or one
pub proof fn lemma_rep_simple(l: Lang)
    ensures equal(|v: Seq<Char>| v.len() == 0, rep(l, 0, Some(0))), equal(l, rep(l, 1, Some(1))),
{
    assert forall|v: Seq<Char>| (v.len() == 0) == #[trigger] rep(l, 0, Some(0))(v) by {
        if v.len() == 0 { assert(within(0, 0, Some(0)) && pow(l, 0)(v)); }
    }
    lemma_split_end(l, pow(l, 0));
    assert forall|v: Seq<Char>| #[trigger] l(v) == rep(l, 1, Some(1))(v) by {
        assert((|v: Seq<Char>| split(l, pow(l, 0), v))(v) == l(v));
        assert(pow(l, 1)(v) == split(l, pow(l, 0), v));
        if l(v) { assert(within(1, 1, Some(1)) && pow(l, 1)(v)); }
    }
}
""")
    m.impl("impl Expression", {
        "max_states_len": Fn(sig="""    requires plain(*ast)
    ensures r == usize::MAX || r >= bound(*ast)
    decreases ast""",
            rules=[("$rx.iter().fold($n, |$iacc: usize, $ix| $e)", "{ let mut $iacc: usize = $n; let mut i_: usize = 0; while i_ < $rx.len() { let $ix = &$rx[i_]; i_ += 1; $iacc = $e; } $iacc }", FOLD),
                   ("unreachable!()", "{ rt_unreachable(); 0 }", "an unreachable case becomes a proof obligation"),
                   ("std::cmp::max($a, $b)", "max_usize($a, $b)", "library function")],
            start="        proof { lemma_lang(*ast); lemma_bounds(terms_of(*ast)); }",
            at=[("let repeats = $e;", "after", """                proof {
                    lemma_bound(**term);
                    assert(repeats == repeats_(*min, *max));
                    let m = repeats_(*min, *max);
                    assert(bound(**term) <= bound(**term) * m) by (nonlinear_arith) requires bound(**term) >= 0, m >= 1;
                    assert forall|x: int| x >= bound(**term) implies #[trigger] (x * m) >= bound(**term) * m by { assert(x * m >= bound(**term) * m) by (nonlinear_arith) requires x >= bound(**term), m >= 1; }
                    assert(usize::MAX * m >= usize::MAX) by (nonlinear_arith) requires m >= 1;
                    assert(bound(*ast) == bound(**term) * m + 2);
                }""")],
            loops=[Loop("""                invariant i_ <= terms@.len(), terms@ == terms_of(*ast), plain(*ast), len == usize::MAX || len >= 1 + sum(bounds(terms@), i_ as int), 
                    forall|i: int| 0 <= i < terms@.len() ==> plain(#[trigger] terms@[i])
                decreases terms@.len() - i_""")]),
        "build_states": Fn(sig="""    requires plain(*ast), old(states)@.len() + bound(*ast) < MAX_SET_SIZE
    ensures old(states)@.len() <= final(states)@.len() <= old(states)@.len() + bound(*ast), same(old(states)@, final(states)@, 0, old(states)@.len() as int),
        raw(final(states)@, old(states)@.len() as int, final(states)@.len() as int), frag(final(states)@, old(states)@.len() as int, final(states)@.len() as int, lang(*ast)),
    decreases ast""", attrs="#[verifier::rlimit(60)]",
            rules=[("vec![]", "Vec::new()", "a macro"), ("max < min", "*max < *min", "the comparison of references is one of the values"),
                   ("unreachable!()", "{ rt_unreachable(); }", "an unreachable case becomes a proof obligation"),
                   ("std::cmp::max($a, $b)", "max_usize($a, $b)", "library function"), ("$rx == None", "$rx.is_none()", "comparison with None"), ("*$rx.is_none()", "$rx.is_none()", "comparison with None")],
            start="""        let ghost old_ = states@; let ghost ls = langs(terms_of(*ast));
        proof { lemma_lang(*ast); lemma_bound(*ast); lemma_bounds(terms_of(*ast)); lemma_nothing(old_, old_.len() as int); lemma_consts();
            if ast is Repetition { let l_ = lang(*ast->term); let b_ = bound(*ast->term); let r_ = repeats_(ast->min, ast->max); lemma_bound(*ast->term); assert(b_ * r_ >= b_) by (nonlinear_arith) requires b_ >= 0, r_ >= 1; assert(bound(*ast) == b_ * r_ + 2); lemma_rep_simple(l_); lemma_frag_equal(old_, old_.len() as int, old_.len() as int, |v: Seq<Char>| v.len() == 0, rep(l_, 0, Some(0))); } }""",
            at=[("Self::build_states(alt, states);", "before", "                    let ghost s1_ = states@;"),
                ("Self::build_states(alt, states);", "after", "                    let ghost s3_ = states@;"),
                ("Self::build_states(term, states);", "before", "                    let ghost s1_ = states@;", 1),
                ("Self::build_states(term, states);", "after", "                    let ghost s3_ = states@;", 1),
                ("states.push(State::new_transition(*char_bitset, $a))", "after", "                ; proof { assert(states@.drop_last() =~= old_); assert(same(old_, states@, 0, old_.len() as int)) by { assert forall|j: int| 0 <= j < old_.len() implies states@.drop_last()[j] == states@[j] by {} } lemma_char_class(states@, old_.len() as int, *char_bitset); }"),
                ("states.push(State::new());", "after", "                proof { assert(states@.drop_last() =~= old_); assert(same(old_, states@, 0, old_.len() as int)); lemma_stuck(states@, old_.len() as int, lang(*ast)); }", 4),
                ("Self::build_states(term, states);", "after", "                proof { lemma_frag_equal(states@, old_.len() as int, states@.len() as int, lang(**term), lang(*ast)); }", 2),
                ("let mut final_term_index", "before", """                let ghost a = initial_len as int; let ghost mut ns: Seq<int> = seq![initial_len + 1]; let ghost l = lang(**term); let ghost m_ = most(*min, *max); let ghost bt = bound(**term);
                proof {
                    assert(closed(old_, a, a)); assert(raw(old_, a, a)); assert(states@.drop_last() =~= old_); lemma_pushed(old_, states@, a); lemma_bound(**term);
                    assert(repeats == repeats_(*min, *max));
                    assert(bound(*ast) == bt * repeats + 2);
                }"""),
                ("Self::build_states(term, states);", "before", "                    let ghost s2 = states@; proof { if k_ <= m_ { assert(linked(s1, s2, a, s1.len() as int)); lemma_linked(s1, s2, a, s1.len() as int, a, s1.len() as int); assert(a < ns[0]); lemma_copies(s1, s2, a, ns, l, k_); } }", 3),
                ("let final_index = $x;", "after", "                let ghost s4 = states@;"),
                ("if max.is_none() { $b; }", "after", """                proof {
                    let fi = final_index as int; let k = repeats as int; let t = states@;
                    assert forall|x: int| #[trigger] eps(t, a, x) == (enters(ns, k, most(*min, *max), x) || (k == k && *min == 0 && x == ns[k])) by { assert(eps(s4, a, x) == enters(ns, k, m_, x)); assert(eps(t, a, x) == (eps(s4, a, x) || (*min == 0 && x == fi))); }
                    assert(copies_from(t, a, ns, k, k, *min, *max));
                    assert(a < ns[0] <= ns[k]);
                    assert(a < ns[k - 1] <= ns[k]);
                    assert(same(s4, t, 0, a)); assert(same(s4, t, a + 1, fi));
                    assert forall|i: int, x: int| a <= i < t.len() && #[trigger] eps(t, i, x) implies a <= x <= t.len() by {
                        if a < i < fi { assert(t[i] == s4[i]); assert(eps(s4, i, x)); }
                        if i == a { if x != fi { assert(eps(s4, a, x)); } }
                    }
                    assert forall|i: int| a <= i < t.len() && #[trigger] t[i].char_bitset != CharBitset::EMPTY implies a <= t[i].next_state <= t.len() by { if a < i < fi { assert(t[i] == s4[i]); } assert(i < fi ==> t[i].char_bitset == s4[i].char_bitset); }
                    assert forall|i: int| a <= i < t.len() implies (#[trigger] t[i]).epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int) && t[i].next_state <= t.len() && t[i].char_bitset.wf() by { if a < i < fi { assert(t[i] == s4[i]); } if i < fi { assert(s4[i].char_bitset.wf()); } }
                    lemma_copies(s4, t, a, ns, l, k);
                    lemma_repetition(t, a, ns, l, k, *min, *max);
                }""")],
            loops=[Loop("""                    invariant plain(*ast), a == initial_len, initial_len == old_.len(), old_.len() + bound(*ast) < MAX_SET_SIZE, same(old_, states@, 0, a), old(states)@ == old_, final(states)@ == final(old(states))@, alts@ == terms_of(*ast), ls == langs(alts@), ls.len() == alts@.len(), forall|i: int| 0 <= i < alts@.len() ==> #[trigger] ls[i] == lang(alts@[i]), forall|i: int| 0 <= i < alts@.len() ==> plain(#[trigger] alts@[i]), forall|i: int| 0 <= i < alts@.len() ==> (#[trigger] bounds(alts@)[i]) >= 1, bound(*ast) == 1 + sum(bounds(alts@), alts@.len() as int),
                        k_alt <= alts@.len(), pieces(states@, a, ns, ls, k_alt as int), closed(states@, a, states@.len() as int), raw(states@, a, states@.len() as int),
                        end_indexes@.len() == k_alt, forall|i: int| 0 <= i < k_alt ==> #[trigger] end_indexes@[i] == ns[i + 1] - 1,
                        states@.len() <= a + 1 + sum(bounds(alts@), k_alt as int), ends(states@, ns, k_alt as int, 0, false),
                        forall|x: int| #[trigger] eps(states@, a, x) == starts_at(ns, k_alt as int, x),
                    decreases alts@.len() - k_alt""",
                before="""                let ghost a = initial_len as int; let ghost mut ns: Seq<int> = seq![initial_len + 1];
                proof { assert(closed(old_, a, a)); assert(raw(old_, a, a)); assert(states@.drop_last() =~= old_); lemma_pushed(old_, states@, a); }""",
                start="""                    let ghost s1 = states@; let ghost k_ = k_alt as int;
                    proof { lemma_sum(bounds(alts@), k_ + 1, alts@.len() as int); assert(sum(bounds(alts@), k_ + 1) == sum(bounds(alts@), k_) + bounds(alts@)[k_]); lemma_bound(alts@[k_]); }""",
                end="""                    proof {
                        let s2 = s1_;
                        assert(linked(s1, s2, a, s1.len() as int));
                        assert(pushed(s3_, states@)) by { assert(states@.drop_last() =~= s3_); assert forall|x: int| !eps(states@, s3_.len() as int, x) by { } }
                        lemma_piece(s1, s2, s3_, states@, a, ns, ls, k_);
                        ns = ns.push(states@.len() as int);
                    }""", after="                let ghost s4 = states@;"),
                Loop("""                    invariant plain(*ast), a == initial_len, initial_len == old_.len(), old_.len() + bound(*ast) < MAX_SET_SIZE, same(old_, states@, 0, a), old(states)@ == old_, final(states)@ == final(old(states))@, alts@ == terms_of(*ast), ls == langs(alts@), ls.len() == alts@.len(), forall|i: int| 0 <= i < alts@.len() ==> #[trigger] ls[i] == lang(alts@[i]), forall|i: int| 0 <= i < alts@.len() ==> plain(#[trigger] alts@[i]), forall|i: int| 0 <= i < alts@.len() ==> (#[trigger] bounds(alts@)[i]) >= 1, bound(*ast) == 1 + sum(bounds(alts@), alts@.len() as int),
                        alts@.len() <= alts@.len(), pieces(states@, a, ns, ls, alts@.len() as int), closed(states@, a, states@.len() as int), raw(states@, a, states@.len() as int),
                        end_indexes@.len() == alts@.len(), forall|i: int| 0 <= i < alts@.len() ==> #[trigger] end_indexes@[i] == ns[i + 1] - 1,
                        states@.len() <= a + 1 + sum(bounds(alts@), alts@.len() as int), ends(states@, ns, alts@.len() as int, k_end_index as int, false), next_index == states@.len(), k_end_index <= end_indexes@.len(),
                        forall|x: int| #[trigger] eps(states@, a, x) == (starts_at(ns, alts@.len() as int, x)),
                    decreases end_indexes@.len() - k_end_index""",
                start="""                    let ghost s1 = states@; let ghost j_ = k_end_index as int; proof { assert(ns[0] < ns[j_ + 1] <= ns[alts@.len() as int]); if j_ + 2 <= alts@.len() { assert(ns[j_ + 1] < ns[alts@.len() as int]); } }""",
                end="""                    proof {
                        assert forall|x: int| #[trigger] eps(states@, ns[j_ + 1] - 1, x) == (x == s1.len() || (false && x == ns[j_ + 1])) by { assert(!eps(s1, ns[j_ + 1] - 1, x)); }
                        lemma_ends(s1, states@, a, ns, ls, alts@.len() as int, j_, false);
                        assert(same(old_, states@, 0, a));
                        assert forall|x: int| #[trigger] eps(states@, a, x) == eps(s1, a, x) by { }
                    }""",
                after="""                proof { lemma_alternatives(states@, a, ns, ls, alts@.len() as int); }"""),
                Loop("""                    invariant plain(*ast), a == initial_len, initial_len == old_.len(), old_.len() + bound(*ast) < MAX_SET_SIZE, same(old_, states@, 0, a), old(states)@ == old_, final(states)@ == final(old(states))@, terms@ == terms_of(*ast), ls == langs(terms@), ls.len() == terms@.len(), forall|i: int| 0 <= i < terms@.len() ==> #[trigger] ls[i] == lang(terms@[i]), forall|i: int| 0 <= i < terms@.len() ==> plain(#[trigger] terms@[i]), forall|i: int| 0 <= i < terms@.len() ==> (#[trigger] bounds(terms@)[i]) >= 1, bound(*ast) == 1 + sum(bounds(terms@), terms@.len() as int),
                        k_term <= terms@.len(), frag(states@, a, states@.len() as int, cat(ls, 0, k_term as int)), raw(states@, a, states@.len() as int),
                        states@.len() <= a + 1 + sum(bounds(terms@), k_term as int),
                    decreases terms@.len() - k_term""",
                    before="                let ghost a = initial_len as int; proof { lemma_frag_equal(old_, a, a, |v: Seq<Char>| v.len() == 0, cat(ls, 0, 0)); }",
                    start="""                    let ghost s1 = states@; let ghost k_ = k_term as int;
                    proof { lemma_sum(bounds(terms@), k_ + 1, terms@.len() as int); assert(sum(bounds(terms@), k_ + 1) == sum(bounds(terms@), k_) + bounds(terms@)[k_]); }""",
                    end="""                    proof {
                        let n = s1.len() as int;
                        lemma_frag_same(s1, states@, a, n, cat(ls, 0, k_));
                        lemma_raw(s1, states@, a, n);
                        lemma_raw_more(states@, a, n, states@.len() as int);
                        lemma_sequence(states@, a, n, states@.len() as int, ls, k_);
                    }"""),
                Loop("""                    invariant plain(*ast), a == initial_len, initial_len == old_.len(), old_.len() + bound(*ast) < MAX_SET_SIZE, same(old_, states@, 0, a), old(states)@ == old_, final(states)@ == final(old(states))@, terms@ == terms_of(*ast), ls == langs(terms@), ls.len() == terms@.len(), forall|i: int| 0 <= i < terms@.len() ==> #[trigger] ls[i] == lang(terms@[i]), forall|i: int| 0 <= i < terms@.len() ==> plain(#[trigger] terms@[i]), forall|i: int| 0 <= i < terms@.len() ==> (#[trigger] bounds(terms@)[i]) >= 1, bound(*ast) == 1 + sum(bounds(terms@), terms@.len() as int),
                        k_term <= terms@.len(), pieces(states@, a, ns, ls, k_term as int), closed(states@, a, states@.len() as int), raw(states@, a, states@.len() as int),
                        end_indexes@.len() == k_term, forall|i: int| 0 <= i < k_term ==> #[trigger] end_indexes@[i] == ns[i + 1] - 1,
                        states@.len() <= a + 1 + sum(bounds(terms@), k_term as int), ends(states@, ns, k_term as int, 0, false),
                        forall|x: int| #[trigger] eps(states@, a, x) == starts_at(ns, k_term as int, x),
                    decreases terms@.len() - k_term""",
                before="""                let ghost a = initial_len as int; let ghost mut ns: Seq<int> = seq![initial_len + 1];
                proof { assert(closed(old_, a, a)); assert(raw(old_, a, a)); assert(states@.drop_last() =~= old_); lemma_pushed(old_, states@, a); }""",
                start="""                    let ghost s1 = states@; let ghost k_ = k_term as int;
                    proof { lemma_sum(bounds(terms@), k_ + 1, terms@.len() as int); assert(sum(bounds(terms@), k_ + 1) == sum(bounds(terms@), k_) + bounds(terms@)[k_]); lemma_bound(terms@[k_]); }""",
                end="""                    proof {
                        let s2 = s1_;
                        assert(linked(s1, s2, a, s1.len() as int));
                        assert(pushed(s3_, states@)) by { assert(states@.drop_last() =~= s3_); assert forall|x: int| !eps(states@, s3_.len() as int, x) by { } }
                        lemma_piece(s1, s2, s3_, states@, a, ns, ls, k_);
                        ns = ns.push(states@.len() as int);
                    }""", after="                let ghost s4 = states@;"),
                Loop("""                    invariant plain(*ast), a == initial_len, initial_len == old_.len(), old_.len() + bound(*ast) < MAX_SET_SIZE, same(old_, states@, 0, a), old(states)@ == old_, final(states)@ == final(old(states))@, terms@ == terms_of(*ast), ls == langs(terms@), ls.len() == terms@.len(), forall|i: int| 0 <= i < terms@.len() ==> #[trigger] ls[i] == lang(terms@[i]), forall|i: int| 0 <= i < terms@.len() ==> plain(#[trigger] terms@[i]), forall|i: int| 0 <= i < terms@.len() ==> (#[trigger] bounds(terms@)[i]) >= 1, bound(*ast) == 1 + sum(bounds(terms@), terms@.len() as int),
                        terms@.len() <= terms@.len(), pieces(states@, a, ns, ls, terms@.len() as int), closed(states@, a, states@.len() as int), raw(states@, a, states@.len() as int),
                        end_indexes@.len() == terms@.len(), forall|i: int| 0 <= i < terms@.len() ==> #[trigger] end_indexes@[i] == ns[i + 1] - 1,
                        states@.len() <= a + 1 + sum(bounds(terms@), terms@.len() as int), ends(states@, ns, terms@.len() as int, k_end_index as int, true), next_index == states@.len(), k_end_index <= end_indexes@.len(),
                        forall|x: int| #[trigger] eps(states@, a, x) == (x == states@.len() || starts_at(ns, terms@.len() as int, x)),
                    decreases end_indexes@.len() - k_end_index""",
                before="""                proof {
                    assert(linked(s4, states@, a, s4.len() as int));
                    assert(ns[0] <= ns[terms@.len() as int]) by { if terms@.len() > 0 { assert(ns[0] < ns[terms@.len() as int]); } }
                    lemma_linked(s4, states@, a, s4.len() as int, a, s4.len() as int);
                    lemma_pieces_update(s4, states@, a, ns, ls, terms@.len() as int, a);
                    assert forall|i: int, x: int| 0 <= i < terms@.len() implies !#[trigger] eps(states@, ns[i + 1] - 1, x) by { assert(ns[0] < ns[i + 1]); if i + 1 < terms@.len() { assert(ns[i + 1] < ns[terms@.len() as int]); } assert(!eps(s4, ns[i + 1] - 1, x)); }
                }""",
                start="""                    let ghost s1 = states@; let ghost j_ = k_end_index as int; proof { assert(ns[0] < ns[j_ + 1] <= ns[terms@.len() as int]); if j_ + 2 <= terms@.len() { assert(ns[j_ + 1] < ns[terms@.len() as int]); } }""",
                end="""                    proof {
                        assert forall|x: int| #[trigger] eps(states@, ns[j_ + 1] - 1, x) == (x == s1.len() || (true && x == ns[j_ + 1])) by { assert(!eps(s1, ns[j_ + 1] - 1, x)); }
                        lemma_ends(s1, states@, a, ns, ls, terms@.len() as int, j_, true);
                        assert(same(old_, states@, 0, a));
                        assert forall|x: int| #[trigger] eps(states@, a, x) == eps(s1, a, x) by { }
                    }""",
                after="""                proof { lemma_substring(states@, a, ns, ls, terms@.len() as int); }"""),
                Loop("""                    invariant plain(*ast), a == initial_len, initial_len == old_.len(), old_.len() + bound(*ast) < MAX_SET_SIZE, same(old_, states@, 0, a), old(states)@ == old_, final(states)@ == final(old(states))@, *ast is Repetition, ast->term == *term, ast->min == *min, ast->max == *max, plain(**term), l == lang(**term), bt == bound(**term), bt >= 0, m_ == most(*min, *max), bound(*ast) == bt * repeats + 2,
                        max is Some ==> *min <= max->0, repeats == repeats_(*min, *max), repeats >= 1,
                        copies(states@, a, ns, l, i as int), ns[i as int] == states@.len(), closed(states@, a, states@.len() as int), raw(states@, a, states@.len() as int),
                        forall|x: int| #[trigger] eps(states@, a, x) == enters(ns, i as int, m_, x), i > 0 ==> final_term_index == ns[i - 1],
                        states@.len() <= a + 1 + bt * i,""",
                    start="""                    let ghost s1 = states@; let ghost k_ = i as int;
                    proof { assert(bt * (k_ + 1) <= bt * repeats && bt * (k_ + 1) == bt * k_ + bt) by (nonlinear_arith) requires k_ + 1 <= repeats, bt >= 0; assert(a < ns[0] <= ns[k_]); }""",
                    end="""                    proof {
                        assert forall|x: int| #[trigger] eps(s2, a, x) == (enters(ns, k_, m_, x) || (k_ <= m_ && x == ns[k_])) by { assert(eps(s1, a, x) == enters(ns, k_, m_, x)); if k_ <= m_ { assert(eps(s2, a, x) == (eps(s1, a, x) || x == s1.len())); } }
                        lemma_copy(s2, states@, a, ns, l, k_);
                        lemma_enters(ns, k_, m_, states@.len() as int);
                        ns = ns.push(states@.len() as int);
                        assert forall|x: int| #[trigger] eps(states@, a, x) == enters(ns, k_ + 1, m_, x) by { assert(eps(states@, a, x) == eps(s2, a, x)); }
                    }""")]),
    })
    return m
