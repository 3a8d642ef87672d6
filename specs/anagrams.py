"""Anagrams are replaced by one pattern per letter and one for the length"""
import re
from build import Module
from extract import Fn, Loop, LostAnchor, Item, lex, match_pattern, rewrite

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
WRITTEN = "the adaptors of the iterator are written out as the loop they perform"


def module():
    m = Module("anagrams", "parser.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::settings::*;
use super::expression::good;
use super::construct::*;

// ---- counts of letters

pub proof fn lemma_cnt_add(x: Seq<Char>, y: Seq<Char>, s: int)
    ensures cnt(x + y, s) == cnt(x, s) + cnt(y, s)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); } else { assert((x + y).drop_last() =~= x + y.drop_last()); lemma_cnt_add(x, y.drop_last(), s); }
}
pub proof fn lemma_cnt_split(v: Seq<Char>, k: int, s: int)
    requires 0 <= k <= v.len()
    ensures cnt(v, s) == cnt(v.take(k), s) + cnt(v.skip(k), s)
{ assert(v =~= v.take(k) + v.skip(k)); lemma_cnt_add(v.take(k), v.skip(k), s); }
pub proof fn lemma_cnt(v: Seq<Char>, s: int)
    ensures 0 <= cnt(v, s) <= v.len(), cnt(v, s) == 0 <==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).sym() != s
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last();
        lemma_cnt(d, s);
        if cnt(v, s) == 0 { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).sym() != s by { if i < d.len() { assert(d[i].sym() != s); } } }
        else { if v.last().sym() == s { assert(v[v.len() - 1].sym() == s); } else { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).sym() == s; assert(v[i].sym() == s); } }
    }
}
/// The first place where a symbol occurs
pub proof fn lemma_first(v: Seq<Char>, s: int) -> (p: int)
    requires cnt(v, s) > 0
    ensures 0 <= p < v.len(), v[p].sym() == s, cnt(v.take(p), s) == 0, cnt(v.skip(p).skip(1), s) == cnt(v, s) - 1
    decreases v.len()
{
    let d = v.drop_last();
    let p = if cnt(d, s) > 0 { lemma_first(d, s) } else { v.len() - 1 };
    if cnt(d, s) > 0 { assert(d.take(p) =~= v.take(p)); } else { assert(v.take(p) =~= d); lemma_cnt(d, s); }
    lemma_cnt_split(v, p, s);
    let w = v.skip(p);
    lemma_cnt_split(w, 1, s);
    assert(w.take(1).drop_last() =~= Seq::<Char>::empty());
    assert(cnt(w.take(1).drop_last(), s) == 0);
    assert(w.take(1).last() == v[p]);
    p
}
/// The counts of all symbols below `n`
pub open spec fn total(v: Seq<Char>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { total(v, n - 1) + cnt(v, n - 1) }
}
proof fn lemma_total_push(v: Seq<Char>, n: int)
    requires v.len() > 0
    ensures total(v, n) == total(v.drop_last(), n) + if 0 <= v.last().sym() < n { 1int } else { 0 }
    decreases n
{
    if n > 0 { lemma_total_push(v, n - 1); }
}
proof fn lemma_total_empty(v: Seq<Char>, n: int)
    requires v.len() == 0
    ensures total(v, n) == 0
    decreases n
{
    if n > 0 { lemma_total_empty(v, n - 1); }
}
pub proof fn lemma_total(v: Seq<Char>)
    requires good(v)
    ensures total(v, SYMBOLS) == v.len()
    decreases v.len()
{
    if v.len() == 0 { lemma_total_empty(v, SYMBOLS); } else {
        lemma_total_push(v, SYMBOLS);
        assert(v.last().wf());
        assert(good(v.drop_last()));
        lemma_total(v.drop_last());
    }
}
proof fn lemma_total_le(v: Seq<Char>, w: Seq<Char>, n: int)
    requires forall|s: int| cnt(v, s) <= cnt(w, s)
    ensures total(v, n) <= total(w, n)
    decreases n
{
    if n > 0 { lemma_total_le(v, w, n - 1); }
}

// ---- the letters of a bank, with their counts

pub open spec fn histogram(bank: Seq<Char>, n: int) -> Seq<(Char, usize)>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if cnt(bank, n - 1) > 0 { histogram(bank, n - 1).push((Char((n - 1) as u8), cnt(bank, n - 1) as usize)) }
    else { histogram(bank, n - 1) }
}
pub open spec fn letters_of(bank: Seq<Char>) -> Seq<(Char, usize)> { histogram(bank, SYMBOLS as int) }
/// Every letter of the bank is in its histogram, once
pub proof fn lemma_histogram(bank: Seq<Char>, n: int)
    requires 0 <= n <= SYMBOLS
    ensures forall|i: int| 0 <= i < histogram(bank, n).len() ==> 0 <= (#[trigger] histogram(bank, n)[i]).0.sym() < n && cnt(bank, histogram(bank, n)[i].0.sym()) > 0 && histogram(bank, n)[i].1 == cnt(bank, histogram(bank, n)[i].0.sym()) as usize,
        forall|s: int| 0 <= s < n && #[trigger] cnt(bank, s) > 0 ==> exists|i: int| 0 <= i < histogram(bank, n).len() && (#[trigger] histogram(bank, n)[i]).0.sym() == s,
        histogram(bank, n).len() <= n,
    decreases n
{
    if n > 0 {
        lemma_histogram(bank, n - 1);
        let h0 = histogram(bank, n - 1);
        let h = histogram(bank, n);
        assert(((n - 1) as u8) as int == n - 1);
        assert forall|s: int| 0 <= s < n && #[trigger] cnt(bank, s) > 0 implies exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0.sym() == s by {
            if s < n - 1 { let i = choose|i: int| 0 <= i < h0.len() && (#[trigger] h0[i]).0.sym() == s; assert(h[i].0.sym() == s); } else { assert(h[h.len() - 1].0.sym() == s); }
        }
    }
}
/// The sum of the counts of a histogram
pub open spec fn sum_of(h: Seq<(Char, usize)>) -> int
    decreases h.len()
{
    if h.len() == 0 { 0 } else { sum_of(h.drop_last()) + h.last().1 }
}
proof fn lemma_sum_of(bank: Seq<Char>, n: int)
    requires bank.len() <= usize::MAX
    ensures sum_of(histogram(bank, n)) == total(bank, n)
    decreases n
{
    if n > 0 {
        lemma_sum_of(bank, n - 1);
        lemma_cnt(bank, n - 1);
        if cnt(bank, n - 1) > 0 { assert(histogram(bank, n).drop_last() =~= histogram(bank, n - 1)); }
    }
}
pub proof fn lemma_sum_is(bank: Seq<Char>)
    requires bank.len() <= usize::MAX, good(bank)
    ensures sum_of(letters_of(bank)) == bank.len()
{ lemma_sum_of(bank, SYMBOLS as int); lemma_total(bank); }
pub proof fn lemma_sum_take(h: Seq<(Char, usize)>, k: int)
    requires 0 <= k <= h.len()
    ensures sum_of(h.take(k)) <= sum_of(h), k > 0 ==> sum_of(h.take(k)) == sum_of(h.take(k - 1)) + h[k - 1].1
    decreases h.len() - k
{
    if k > 0 { assert(h.take(k).drop_last() =~= h.take(k - 1)); }
    if k < h.len() { lemma_sum_take(h, k + 1); assert(h.take(k + 1).drop_last() =~= h.take(k)); } else { assert(h.take(k) =~= h); }
}

// ---- what is asked of a string by each of the patterns

pub enum Mode { Exactly, AtMost, AtLeast }
pub open spec fn mode(kind: AnagramKind) -> Mode { match kind { AnagramKind::Standard => Mode::Exactly, AnagramKind::Sub => Mode::AtMost, AnagramKind::TransDelete(d) => Mode::AtMost, _ => Mode::AtLeast } }
pub open spec fn relates(m: Mode, n: int, k: int) -> bool { match m { Mode::Exactly => n == k, Mode::AtMost => n <= k, Mode::AtLeast => n >= k } }
/// Only symbols of the bank (or only letters)
pub open spec fn allowed(kind: AnagramKind, bank: Seq<Char>, s: int) -> bool { if mode(kind) is AtLeast { is_letter(s) } else { cnt(bank, s) > 0 } }
pub open spec fn all_allowed(kind: AnagramKind, bank: Seq<Char>, v: Seq<Char>) -> bool { forall|i: int| 0 <= i < v.len() ==> allowed(kind, bank, (#[trigger] v[i]).sym()) }
pub open spec fn length_ok(kind: AnagramKind, n: int, l: int) -> bool {
    match kind {
        AnagramKind::Standard => l == n, AnagramKind::Sub => l <= n, AnagramKind::TransDelete(d) => l == less_by(n, d),
        AnagramKind::Super => l >= n, AnagramKind::TransAdd(d) => l == more_by(n, d),
    }
}
/// What the pattern of number `nth` demands
pub open spec fn demand(kind: AnagramKind, bank: Seq<Char>, nth: int, v: Seq<Char>) -> bool {
    &&& all_allowed(kind, bank, v)
    &&& if 0 <= nth < letters_of(bank).len() { relates(mode(kind), cnt(v, letters_of(bank)[nth].0.sym()), letters_of(bank)[nth].1 as int) } else { length_ok(kind, bank.len() as int, v.len() as int) }
}
/// The patterns together demand what the anagram describes
pub proof fn lemma_demanded(kind: AnagramKind, bank: Seq<Char>, v: Seq<Char>)
    requires good(bank), letters(bank), good(v), bank.len() <= usize::MAX
    ensures anagram(kind, bank, v) ==> forall|n: int| n >= 0 ==> #[trigger] demand(kind, bank, n, v),
        (forall|n: int| 0 <= n <= letters_of(bank).len() ==> #[trigger] demand(kind, bank, n, v)) ==> anagram(kind, bank, v)
{
    let h = letters_of(bank);
    lemma_histogram(bank, SYMBOLS as int);
    lemma_total(bank); lemma_total(v);
    assert forall|s: int| 0 <= #[trigger] cnt(v, s) && 0 <= cnt(bank, s) <= bank.len() by { lemma_cnt(v, s); lemma_cnt(bank, s); }
    assert forall|s: int| #[trigger] cnt(bank, s) > 0 implies is_letter(s) && 0 <= s < SYMBOLS by { lemma_cnt(bank, s); let i = choose|i: int| 0 <= i < bank.len() && (#[trigger] bank[i]).sym() == s; assert(is_letter(bank[i].sym())); assert(bank[i].wf()); }
    if anagram(kind, bank, v) {
        assert forall|n: int| n >= 0 implies #[trigger] demand(kind, bank, n, v) by {
            assert forall|i: int| 0 <= i < v.len() implies allowed(kind, bank, (#[trigger] v[i]).sym()) by { let s = v[i].sym(); lemma_cnt(v, s); assert(cnt(v, s) > 0); }
            if n < h.len() { assert(cnt(v, h[n].0.sym()) >= 0); assert(h[n].1 == cnt(bank, h[n].0.sym())); }
            if mode(kind) is AtLeast { lemma_total_le(bank, v, SYMBOLS); } else { lemma_total_le(v, bank, SYMBOLS); }
            if kind is Standard { lemma_total_le(bank, v, SYMBOLS); }
        }
    }
    if forall|n: int| 0 <= n <= h.len() ==> #[trigger] demand(kind, bank, n, v) {
        assert(demand(kind, bank, h.len() as int, v));
        assert forall|s: int| #![trigger cnt(v, s)] relates(mode(kind), cnt(v, s), cnt(bank, s)) by {
            if cnt(bank, s) > 0 {
                let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0.sym() == s;
                assert(demand(kind, bank, i, v));
                assert(h[i].1 == cnt(bank, s));
            } else {
                lemma_cnt(bank, s); lemma_cnt(v, s);
                if cnt(v, s) > 0 && !(mode(kind) is AtLeast) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).sym() == s; assert(allowed(kind, bank, v[i].sym())); }
            }
        }
        if mode(kind) is AtLeast { assert(letters(v)) by { assert forall|i: int| 0 <= i < v.len() implies is_letter((#[trigger] v[i]).sym()) by { assert(allowed(kind, bank, v[i].sym())); } } }
    }
}

// ---- languages of the patterns

pub open spec fn all_in(b: CharBitset, v: Seq<Char>) -> bool { forall|i: int| 0 <= i < v.len() ==> b.has_sym((#[trigger] v[i]).sym()) }
pub proof fn lemma_pow_one(b: CharBitset, n: int, v: Seq<Char>)
    requires n >= 0
    ensures pow(one(b), n)(v) == (v.len() == n && all_in(b, v))
    decreases n
{
    if n > 0 {
        if pow(one(b), n)(v) {
            let k = choose|k: int| 0 <= k <= v.len() && one(b)(#[trigger] v.take(k)) && pow(one(b), n - 1)(v.skip(k));
            lemma_pow_one(b, n - 1, v.skip(k));
            assert(v.take(k)[0] == v[0]);
            assert forall|i: int| 0 <= i < v.len() implies b.has_sym((#[trigger] v[i]).sym()) by { if i > 0 { assert(v.skip(1)[i - 1] == v[i]); } }
        }
        if v.len() == n && all_in(b, v) {
            lemma_pow_one(b, n - 1, v.skip(1));
            assert(v.take(1)[0] == v[0]);
            assert(one(b)(v.take(1)));
            assert(split(one(b), pow(one(b), n - 1), v));
        }
    }
}
pub proof fn lemma_rep_one(b: CharBitset, min: usize, max: Option<usize>, v: Seq<Char>)
    ensures rep(one(b), min, max)(v) == (within(v.len() as int, min, max) && all_in(b, v))
{
    if rep(one(b), min, max)(v) { let n = choose|n: int| #![trigger pow(one(b), n)] within(n, min, max) && pow(one(b), n)(v); lemma_pow_one(b, n, v); }
    if within(v.len() as int, min, max) && all_in(b, v) { lemma_pow_one(b, v.len() as int, v); assert(pow(one(b), v.len() as int)(v)); }
}
/// Fill, letter, fill, letter, …, fill
pub open spec fn alternates(ls: Seq<Lang>, f: Lang, c: Lang, m: int) -> bool {
    ls.len() == 2 * m + 1 && (forall|i: int| 0 <= i <= m ==> #[trigger] ls[2 * i] == f) && (forall|i: int| 0 <= i < m ==> #[trigger] ls[2 * i + 1] == c)
}
pub open spec fn filled(b: CharBitset, s: int, v: Seq<Char>) -> bool { forall|i: int| 0 <= i < v.len() ==> b.has_sym((#[trigger] v[i]).sym()) || v[i].sym() == s }
proof fn lemma_filled_add(b: CharBitset, s: int, v: Seq<Char>, k: int)
    requires 0 <= k <= v.len()
    ensures filled(b, s, v) == (filled(b, s, v.take(k)) && filled(b, s, v.skip(k)))
{
    if filled(b, s, v.take(k)) && filled(b, s, v.skip(k)) { assert forall|i: int| 0 <= i < v.len() implies b.has_sym((#[trigger] v[i]).sym()) || v[i].sym() == s by { if i < k { assert(v.take(k)[i] == v[i]); } else { assert(v.skip(k)[i - k] == v[i]); } } }
}
/// The strings of such a sequence are those with the letter so many times
pub proof fn lemma_alternating(ls: Seq<Lang>, b: CharBitset, c: CharBitset, s: int, md: Mode, m: int, k: int, v: Seq<Char>)
    requires 0 <= k <= m, forall|i: int| #[trigger] c.has_sym(i) == (i == s), b.has_sym(s) == (md is AtLeast),
        alternates(ls, rep(one(b), 0, None), if md is AtMost { rep(one(c), 0, Some(1usize)) } else { one(c) }, m)
    ensures cat(ls, 2 * (m - k), 2 * m + 1)(v) == (filled(b, s, v) && relates(md, cnt(v, s), k))
    decreases k
{
    let f = rep(one(b), 0, None);
    let cl = if md is AtMost { rep(one(c), 0, Some(1usize)) } else { one(c) };
    let i = 2 * (m - k);
    let n = 2 * m + 1;
    assert(ls[2 * (m - k)] == f);
    if k == 0 {
        assert(cat(ls, i, n)(v) == split(f, cat(ls, i + 1, n), v));
        lemma_cnt(v, s);
        if cat(ls, i, n)(v) {
            let j = choose|j: int| 0 <= j <= v.len() && f(#[trigger] v.take(j)) && cat(ls, i + 1, n)(v.skip(j));
            assert(v.take(j) =~= v);
            lemma_rep_one(b, 0, None, v);
            if cnt(v, s) > 0 && !(md is AtLeast) { let x = choose|x: int| 0 <= x < v.len() && (#[trigger] v[x]).sym() == s; assert(b.has_sym(v[x].sym())); }
        }
        if filled(b, s, v) && relates(md, cnt(v, s), k) {
            assert(all_in(b, v)) by { assert forall|x: int| 0 <= x < v.len() implies b.has_sym((#[trigger] v[x]).sym()) by { if v[x].sym() == s { assert(cnt(v, s) > 0); } } }
            lemma_rep_one(b, 0, None, v);
            assert(v.take(v.len() as int) =~= v);
            assert(f(v.take(v.len() as int)) && cat(ls, i + 1, n)(v.skip(v.len() as int)));
        }
    } else {
        assert(ls[2 * (m - k) + 1] == cl);
        let rest = cat(ls, i + 2, n);
        assert(i + 2 == 2 * (m - (k - 1)));
        let tail = cat(ls, i + 1, n);
        assert(cat(ls, i, n)(v) == split(f, tail, v));
        assert forall|w: Seq<Char>| #[trigger] tail(w) == split(cl, rest, w) by { }
        if cat(ls, i, n)(v) {
            let j = choose|j: int| 0 <= j <= v.len() && f(#[trigger] v.take(j)) && tail(v.skip(j));
            let w = v.skip(j);
            assert(split(cl, rest, w));
            let l = choose|l: int| 0 <= l <= w.len() && cl(#[trigger] w.take(l)) && rest(w.skip(l));
            lemma_alternating(ls, b, c, s, md, m, k - 1, w.skip(l));
            lemma_rep_one(b, 0, None, v.take(j));
            lemma_rep_one(c, 0, Some(1usize), w.take(l));
            lemma_filled_add(b, s, v, j); lemma_filled_add(b, s, w, l);
            lemma_cnt_split(v, j, s); lemma_cnt_split(w, l, s);
            lemma_cnt(v.take(j), s);
            assert(all_in(c, w.take(l))) by { if !(md is AtMost) { assert(one(c)(w.take(l))); } }
            assert(w.take(l).len() <= 1);
            lemma_cnt(w.take(l), s);
            if !(md is AtMost) { assert(c.has_sym(w.take(l)[0].sym())); assert(cnt(w.take(l), s) > 0); }
            if !(md is AtLeast) { if cnt(v.take(j), s) > 0 { let x = choose|x: int| 0 <= x < v.take(j).len() && (#[trigger] v.take(j)[x]).sym() == s; assert(b.has_sym(v.take(j)[x].sym())); } }
            assert(filled(b, s, w.take(l))) by { assert forall|x: int| 0 <= x < w.take(l).len() implies b.has_sym((#[trigger] w.take(l)[x]).sym()) || w.take(l)[x].sym() == s by { assert(c.has_sym(w.take(l)[x].sym())); } }
        }
        if filled(b, s, v) && relates(md, cnt(v, s), k) {
            let (j, l) = if cnt(v, s) > 0 { (lemma_first(v, s), 1int) } else { (v.len() as int, 0int) };
            let w = v.skip(j);
            lemma_cnt(v, s);
            lemma_filled_add(b, s, v, j); lemma_filled_add(b, s, w, l);
            lemma_cnt_split(v, j, s); lemma_cnt_split(w, l, s);
            lemma_cnt(v.take(j), s); lemma_cnt(w.skip(l), s); lemma_cnt(w.take(l), s);
            assert(all_in(b, v.take(j))) by { assert forall|x: int| 0 <= x < v.take(j).len() implies b.has_sym((#[trigger] v.take(j)[x]).sym()) by { if v.take(j)[x].sym() == s { assert(cnt(v.take(j), s) > 0); } } }
            lemma_rep_one(b, 0, None, v.take(j));
            assert(all_in(c, w.take(l))) by { assert forall|x: int| 0 <= x < w.take(l).len() implies c.has_sym((#[trigger] w.take(l)[x]).sym()) by { assert(w.take(l)[x] == v[j]); } }
            lemma_rep_one(c, 0, Some(1usize), w.take(l));
            if !(md is AtMost) { assert(c.has_sym(w.take(l)[0].sym())); assert(one(c)(w.take(l))); }
            assert(cl(w.take(l)));
            lemma_alternating(ls, b, c, s, md, m, k - 1, w.skip(l));
            assert(rest(w.skip(l)));
            assert(split(cl, rest, w));
            assert(tail(w));
            assert(f(v.take(j)) && tail(v.skip(j)));
        }
    }
}

// ---- trees in which anagrams are replaced

/// A tree as the parser makes it
pub open spec fn parsed(t: Ast) -> bool
    decreases t
{
    match t {
        Ast::CharClass(b) => b.wf(),
        Ast::Alternatives(ts) => forall|i: int| 0 <= i < ts@.len() ==> parsed(#[trigger] ts@[i]),
        Ast::Sequence(ts) => forall|i: int| 0 <= i < ts@.len() ==> parsed(#[trigger] ts@[i]),
        Ast::Substring(ts) => forall|i: int| 0 <= i < ts@.len() ==> parsed(#[trigger] ts@[i]),
        Ast::Repetition { term, min, max } => parsed(*term),
        Ast::Anagram { kind, bank } => a_bank(bank@),
    }
}
pub open spec fn a_bank(bank: Seq<Char>) -> bool { good(bank) && letters(bank) && bank.len() <= usize::MAX }
/// A pattern for the anagram
pub open spec fn demands(t: Ast, kind: AnagramKind, bank: Seq<Char>, n: int) -> bool { plain(t) && forall|v: Seq<Char>| good(v) ==> #[trigger] lang(t)(v) == demand(kind, bank, n, v) }
/// `t` is `t0`, with the pattern of number `n` in place of every anagram
pub open spec fn replaced(t0: Ast, t: Ast, n: int) -> bool
    decreases t0
{
    match t0 {
        Ast::CharClass(b) => t == t0,
        Ast::Alternatives(ts) => t is Alternatives && t->Alternatives_0@.len() == ts@.len() && forall|i: int| 0 <= i < ts@.len() ==> replaced(#[trigger] ts@[i], t->Alternatives_0@[i], n),
        Ast::Sequence(ts) => t is Sequence && t->Sequence_0@.len() == ts@.len() && forall|i: int| 0 <= i < ts@.len() ==> replaced(#[trigger] ts@[i], t->Sequence_0@[i], n),
        Ast::Substring(ts) => t is Substring && t->Substring_0@.len() == ts@.len() && forall|i: int| 0 <= i < ts@.len() ==> replaced(#[trigger] ts@[i], t->Substring_0@[i], n),
        Ast::Repetition { term, min, max } => t is Repetition && t->min == min && t->max == max && replaced(*term, *t->term, n),
        Ast::Anagram { kind, bank } => demands(t, kind, bank@, n),
    }
}
pub proof fn lemma_replaced_plain(t0: Ast, t: Ast, n: int)
    requires replaced(t0, t, n), parsed(t0)
    ensures plain(t)
    decreases t0
{
    match t0 {
        Ast::Alternatives(ts) => { let us = t->Alternatives_0; assert forall|i: int| 0 <= i < us@.len() implies plain(#[trigger] us@[i]) by { assert(parsed(ts@[i])); lemma_replaced_plain(ts@[i], us@[i], n); } }
        Ast::Sequence(ts) => { let us = t->Sequence_0; assert forall|i: int| 0 <= i < us@.len() implies plain(#[trigger] us@[i]) by { assert(parsed(ts@[i])); lemma_replaced_plain(ts@[i], us@[i], n); } }
        Ast::Substring(ts) => { let us = t->Substring_0; assert forall|i: int| 0 <= i < us@.len() implies plain(#[trigger] us@[i]) by { assert(parsed(ts@[i])); lemma_replaced_plain(ts@[i], us@[i], n); } }
        Ast::Repetition { term, min, max } => { lemma_replaced_plain(*term, *t->term, n); }
        _ => {}
    }
}
/// Everything of `l` is in `k`
pub open spec fn below(l: Lang, k: Lang) -> bool { forall|v: Seq<Char>| good(v) && #[trigger] l(v) ==> k(v) }
pub open spec fn all_below(ls: Seq<Lang>, ks: Seq<Lang>) -> bool { ls.len() == ks.len() && forall|i: int| 0 <= i < ls.len() ==> below(#[trigger] ls[i], ks[i]) }
proof fn lemma_good_parts(v: Seq<Char>, k: int)
    requires good(v), 0 <= k <= v.len()
    ensures good(v.take(k)), good(v.skip(k))
{}
pub proof fn lemma_cat_below(ls: Seq<Lang>, ks: Seq<Lang>, i: int, j: int)
    requires all_below(ls, ks), 0 <= i, j <= ls.len()
    ensures below(cat(ls, i, j), cat(ks, i, j))
    decreases j - i
{
    if i < j {
        lemma_cat_below(ls, ks, i + 1, j);
        assert forall|v: Seq<Char>| good(v) && #[trigger] cat(ls, i, j)(v) implies cat(ks, i, j)(v) by {
            let k = choose|k: int| 0 <= k <= v.len() && ls[i](#[trigger] v.take(k)) && cat(ls, i + 1, j)(v.skip(k));
            lemma_good_parts(v, k);
            assert(below(ls[i], ks[i]));
            assert(ks[i](v.take(k)) && cat(ks, i + 1, j)(v.skip(k)));
        }
    }
}
pub proof fn lemma_pow_below(l: Lang, k: Lang, n: int)
    requires below(l, k)
    ensures below(pow(l, n), pow(k, n))
    decreases n
{
    if n > 0 {
        lemma_pow_below(l, k, n - 1);
        assert forall|v: Seq<Char>| good(v) && #[trigger] pow(l, n)(v) implies pow(k, n)(v) by {
            let j = choose|j: int| 0 <= j <= v.len() && l(#[trigger] v.take(j)) && pow(l, n - 1)(v.skip(j));
            lemma_good_parts(v, j);
            assert(k(v.take(j)) && pow(k, n - 1)(v.skip(j)));
        }
    }
}
pub proof fn lemma_rep_below(l: Lang, k: Lang, min: usize, max: Option<usize>)
    requires below(l, k)
    ensures below(rep(l, min, max), rep(k, min, max))
{
    assert forall|v: Seq<Char>| good(v) && #[trigger] rep(l, min, max)(v) implies rep(k, min, max)(v) by {
        let n = choose|n: int| #![trigger pow(l, n)] within(n, min, max) && pow(l, n)(v);
        lemma_pow_below(l, k, n);
        assert(within(n, min, max) && pow(k, n)(v));
    }
}
pub proof fn lemma_alt_below(ls: Seq<Lang>, ks: Seq<Lang>)
    requires all_below(ls, ks)
    ensures below(alt(ls), alt(ks))
{
    assert forall|v: Seq<Char>| good(v) && #[trigger] alt(ls)(v) implies alt(ks)(v) by { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i](v); assert(below(ls[i], ks[i])); assert(ks[i](v)); }
}
pub proof fn lemma_part_below(ls: Seq<Lang>, ks: Seq<Lang>)
    requires all_below(ls, ks)
    ensures below(part(ls), part(ks))
{
    assert forall|v: Seq<Char>| good(v) && #[trigger] part(ls)(v) implies part(ks)(v) by {
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= ls.len() && #[trigger] cat(ls, i, j)(v);
        lemma_cat_below(ls, ks, i, j);
        assert(cat(ks, i, j)(v));
    }
}
/// Nothing that the tree describes is rejected by a replacement; what has no anagrams stays as it is
pub proof fn lemma_replaced(t0: Ast, t: Ast, n: int)
    requires replaced(t0, t, n), parsed(t0), n >= 0
    ensures below(lang(t0), lang(t)), plain(t0) ==> below(lang(t), lang(t0))
    decreases t0
{
    lemma_lang(t0); lemma_lang(t);
    let ts = terms_of(t0);
    let us = terms_of(t);
    match t0 {
        Ast::CharClass(b) => {}
        Ast::Repetition { term, min, max } => {
            lemma_replaced(*term, *t->term, n);
            lemma_rep_below(lang(*term), lang(*t->term), min, max);
            if plain(t0) { lemma_rep_below(lang(*t->term), lang(*term), min, max); }
        }
        Ast::Anagram { kind, bank } => {
            assert forall|v: Seq<Char>| good(v) && #[trigger] lang(t0)(v) implies lang(t)(v) by { lemma_demanded(kind, bank@, v); assert(demand(kind, bank@, n, v)); }
        }
        _ => {
            assert forall|i: int| 0 <= i < ts.len() implies below(#[trigger] lang(ts[i]), lang(us[i])) && (plain(t0) ==> below(lang(us[i]), lang(ts[i]))) by {
                assert(parsed(ts[i]) && replaced(ts[i], us[i], n));
                assert(plain(t0) ==> plain(ts[i]));
                lemma_replaced(ts[i], us[i], n);
            }
            assert(all_below(langs(ts), langs(us)));
            lemma_cat_below(langs(ts), langs(us), 0, ts.len() as int);
            lemma_alt_below(langs(ts), langs(us)); lemma_part_below(langs(ts), langs(us));
            if plain(t0) {
                assert(all_below(langs(us), langs(ts))) by { assert forall|i: int| 0 <= i < us.len() implies below(#[trigger] langs(us)[i], langs(ts)[i]) by { assert(below(lang(ts[i]), lang(us[i]))); } }
                lemma_cat_below(langs(us), langs(ts), 0, ts.len() as int);
                lemma_alt_below(langs(us), langs(ts)); lemma_part_below(langs(us), langs(ts));
            }
        }
    }
}

// ---- where the replacements together are exact

/// A pattern that is one symbol long
pub open spec fn single(t: Ast) -> bool { t is CharClass }
/// One anagram, before and after which there are patterns for single symbols
pub open spec fn fenced(t: Ast, p: int) -> bool {
    t is Sequence && 0 <= p < t->Sequence_0@.len() && t->Sequence_0@[p] is Anagram && forall|i: int| 0 <= i < t->Sequence_0@.len() && i != p ==> #[trigger] t->Sequence_0@[i] is CharClass
}
/// A string of such a sequence falls into parts in one way only
pub open spec fn around(bs: Seq<Ast>, i: int, j: int, v: Seq<Char>) -> bool { v.len() == j - i && forall|k: int| 0 <= k < j - i ==> (#[trigger] bs[i + k]) is CharClass && bs[i + k]->CharClass_0.has_sym(v[k].sym()) }
proof fn lemma_cat_singles(ts: Seq<Ast>, i: int, j: int, v: Seq<Char>)
    requires 0 <= i <= j <= ts.len(), forall|k: int| i <= k < j ==> #[trigger] ts[k] is CharClass
    ensures cat(langs(ts), i, j)(v) == around(ts, i, j, v)
    decreases j - i
{
    if i < j {
        let ls = langs(ts);
        assert(ls[i] == one(ts[i]->CharClass_0));
        if cat(ls, i, j)(v) {
            let k = choose|k: int| 0 <= k <= v.len() && ls[i](#[trigger] v.take(k)) && cat(ls, i + 1, j)(v.skip(k));
            lemma_cat_singles(ts, i + 1, j, v.skip(k));
            assert(v.take(k)[0] == v[0]);
            assert forall|x: int| 0 <= x < j - i implies (#[trigger] ts[i + x]) is CharClass && ts[i + x]->CharClass_0.has_sym(v[x].sym()) by { if x > 0 { assert(v.skip(1)[x - 1] == v[x]); assert(ts[(i + 1) + (x - 1)] is CharClass); } }
        }
        if around(ts, i, j, v) {
            assert(v.take(1)[0] == v[0]);
            assert(ts[i + 0] is CharClass);
            assert(around(ts, i + 1, j, v.skip(1))) by { assert forall|k: int| 0 <= k < j - (i + 1) implies (#[trigger] ts[(i + 1) + k]) is CharClass && ts[(i + 1) + k]->CharClass_0.has_sym(v.skip(1)[k].sym()) by { assert(ts[i + (k + 1)] is CharClass); } }
            lemma_cat_singles(ts, i + 1, j, v.skip(1));
            assert(ls[i](v.take(1)) && cat(ls, i + 1, j)(v.skip(1)));
        }
    } else if around(ts, i, j, v) { assert(v.len() == 0); }
}
/// The part of the string that belongs to the term of number `p`
pub open spec fn middle(n: int, i: int, p: int, v: Seq<Char>) -> Seq<Char> { v.subrange(p - i, v.len() - (n - 1 - p)) }
pub open spec fn parts(ts: Seq<Ast>, i: int, p: int, v: Seq<Char>) -> bool {
    let n = ts.len();
    &&& v.len() >= n - 1 - i
    &&& around(ts, i, p, v.take(p - i)) && lang(ts[p])(middle(n as int, i, p, v)) && around(ts, p + 1, n as int, v.skip(v.len() - (n - 1 - p)))
}
pub proof fn lemma_cat_fenced(ts: Seq<Ast>, i: int, p: int, v: Seq<Char>)
    requires 0 <= i <= p < ts.len(), forall|k: int| 0 <= k < ts.len() && k != p ==> #[trigger] ts[k] is CharClass
    ensures cat(langs(ts), i, ts.len() as int)(v) == parts(ts, i, p, v)
    decreases p - i
{
    let ls = langs(ts);
    let n = ts.len() as int;
    if i == p {
        if cat(ls, i, n)(v) {
            let k = choose|k: int| 0 <= k <= v.len() && ls[i](#[trigger] v.take(k)) && cat(ls, i + 1, n)(v.skip(k));
            lemma_cat_singles(ts, i + 1, n, v.skip(k));
            assert(k == v.len() - (n - 1 - p));
            assert(v.take(k) =~= middle(n, i, p, v));
            assert(v.take(0).len() == 0);
        }
        if parts(ts, i, p, v) {
            let k = v.len() - (n - 1 - p);
            lemma_cat_singles(ts, i + 1, n, v.skip(k));
            assert(v.take(k) =~= middle(n, i, p, v));
            assert(ls[i](v.take(k)) && cat(ls, i + 1, n)(v.skip(k)));
        }
    } else {
        assert(ls[i] == one(ts[i]->CharClass_0));
        if cat(ls, i, n)(v) {
            let k = choose|k: int| 0 <= k <= v.len() && ls[i](#[trigger] v.take(k)) && cat(ls, i + 1, n)(v.skip(k));
            let w = v.skip(1);
            lemma_cat_fenced(ts, i + 1, p, w);
            assert(v.take(k)[0] == v[0]);
            assert(middle(n, i + 1, p, w) =~= middle(n, i, p, v));
            assert(w.skip(w.len() - (n - 1 - p)) =~= v.skip(v.len() - (n - 1 - p)));
            assert(around(ts, i, p, v.take(p - i))) by { assert forall|x: int| 0 <= x < p - i implies (#[trigger] ts[i + x]) is CharClass && ts[i + x]->CharClass_0.has_sym(v.take(p - i)[x].sym()) by { if x > 0 { assert(w.take(p - i - 1)[x - 1] == v[x]); assert(ts[(i + 1) + (x - 1)] is CharClass); } } }
        }
        if parts(ts, i, p, v) {
            let w = v.skip(1);
            assert(ts[i + 0] is CharClass);
            assert(v.take(p - i)[0] == v[0]);
            assert(v.take(1)[0] == v[0]);
            assert(middle(n, i + 1, p, w) =~= middle(n, i, p, v));
            assert(w.skip(w.len() - (n - 1 - p)) =~= v.skip(v.len() - (n - 1 - p)));
            assert(around(ts, i + 1, p, w.take(p - i - 1))) by { assert forall|x: int| 0 <= x < p - (i + 1) implies (#[trigger] ts[(i + 1) + x]) is CharClass && ts[(i + 1) + x]->CharClass_0.has_sym(w.take(p - i - 1)[x].sym()) by { assert(ts[i + (x + 1)] is CharClass); assert(v.take(p - i)[x + 1] == w.take(p - i - 1)[x]); } }
            lemma_cat_fenced(ts, i + 1, p, w);
            assert(ls[i](v.take(1)) && cat(ls, i + 1, n)(v.skip(1)));
        }
    }
}
/// All replacements of a tree, up to the number of letters of its anagrams
pub open spec fn all_replaced(t0: Ast, us: Seq<Ast>) -> bool { forall|n: int| 0 <= n < us.len() ==> replaced(t0, #[trigger] us[n], n) }
/// They together denote what the tree denotes: an anagram
pub proof fn lemma_exact_alone(t0: Ast, us: Seq<Ast>, v: Seq<Char>)
    requires t0 is Anagram, parsed(t0), all_replaced(t0, us), us.len() > letters_of(t0->bank@).len(), good(v)
    ensures lang(t0)(v) <==> forall|n: int| 0 <= n < us.len() ==> lang(#[trigger] us[n])(v)
{
    let kind = t0->kind; let bank = t0->bank@;
    lemma_demanded(kind, bank, v);
    if forall|n: int| 0 <= n < us.len() ==> lang(#[trigger] us[n])(v) {
        assert forall|n: int| 0 <= n <= letters_of(bank).len() implies #[trigger] demand(kind, bank, n, v) by { assert(replaced(t0, us[n], n)); assert(lang(us[n])(v)); }
    }
    if lang(t0)(v) { assert forall|n: int| 0 <= n < us.len() implies lang(#[trigger] us[n])(v) by { assert(replaced(t0, us[n], n)); lemma_replaced(t0, us[n], n); } }
}
/// … and an anagram between single symbols
pub proof fn lemma_exact_fenced(t0: Ast, p: int, us: Seq<Ast>, v: Seq<Char>)
    requires fenced(t0, p), parsed(t0), all_replaced(t0, us), us.len() > letters_of(t0->Sequence_0@[p]->bank@).len(), good(v)
    ensures lang(t0)(v) <==> forall|n: int| 0 <= n < us.len() ==> lang(#[trigger] us[n])(v)
{
    let ts = t0->Sequence_0@;
    let a = ts[p];
    let n0 = ts.len() as int;
    lemma_lang(t0);
    if lang(t0)(v) { assert forall|n: int| 0 <= n < us.len() implies lang(#[trigger] us[n])(v) by { assert(replaced(t0, us[n], n)); lemma_replaced(t0, us[n], n); } }
    if forall|n: int| 0 <= n < us.len() ==> lang(#[trigger] us[n])(v) {
        let rs = Seq::new(us.len(), |n: int| us[n]->Sequence_0@[p]);
        let mid = middle(n0, 0, p, v);
        assert forall|n: int| 0 <= n < us.len() implies parts((#[trigger] us[n])->Sequence_0@, 0, p, v) && replaced(a, rs[n], n) by {
            assert(lang(us[n])(v));
            assert(replaced(t0, us[n], n));
            assert(replaced(ts[p], us[n]->Sequence_0@[p], n));
            lemma_lang(us[n]);
            assert forall|k: int| 0 <= k < n0 && k != p implies #[trigger] us[n]->Sequence_0@[k] is CharClass by { assert(ts[k] is CharClass); assert(replaced(ts[k], us[n]->Sequence_0@[k], n)); }
            lemma_cat_fenced(us[n]->Sequence_0@, 0, p, v);
        }
        assert(parts(us[0]->Sequence_0@, 0, p, v));
        assert(good(mid));
        assert forall|n: int| 0 <= n < rs.len() implies lang(#[trigger] rs[n])(mid) by { assert(parts(us[n]->Sequence_0@, 0, p, v)); }
        assert(parsed(a));
        lemma_exact_alone(a, rs, mid);
        assert(replaced(t0, us[0], 0));
        assert forall|k: int| 0 <= k < n0 && k != p implies #[trigger] us[0]->Sequence_0@[k] == ts[k] by { assert(ts[k] is CharClass); assert(replaced(ts[k], us[0]->Sequence_0@[k], 0)); }
        let u0 = us[0]->Sequence_0@;
        assert(around(ts, 0, p, v.take(p))) by { assert forall|x: int| 0 <= x < p implies (#[trigger] ts[0 + x]) is CharClass && ts[0 + x]->CharClass_0.has_sym(v.take(p)[x].sym()) by { assert(u0[0 + x] == ts[x]); } }
        let z = v.skip(v.len() - (n0 - 1 - p));
        assert(around(ts, p + 1, n0, z)) by { assert forall|x: int| 0 <= x < n0 - (p + 1) implies (#[trigger] ts[(p + 1) + x]) is CharClass && ts[(p + 1) + x]->CharClass_0.has_sym(z[x].sym()) by { assert(u0[(p + 1) + x] == ts[(p + 1) + x]); } }
        assert(parts(ts, 0, p, v));
        lemma_cat_fenced(ts, 0, p, v);
    }
}

// ---- the anagrams of a tree, in the order in which they are visited

pub open spec fn in_order(ss: Seq<Seq<(AnagramKind, Seq<Char>)>>, k: int) -> Seq<(AnagramKind, Seq<Char>)>
    decreases k
{
    if k <= 0 { Seq::empty() } else { in_order(ss, k - 1) + ss[k - 1] }
}
pub open spec fn anagrams_in(t: Ast) -> Seq<(AnagramKind, Seq<Char>)>
    decreases t
{
    match t {
        Ast::CharClass(b) => Seq::empty(),
        Ast::Alternatives(ts) => in_order(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { anagrams_in(ts@[i]) } else { Seq::empty() }), ts@.len() as int),
        Ast::Sequence(ts) => in_order(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { anagrams_in(ts@[i]) } else { Seq::empty() }), ts@.len() as int),
        Ast::Substring(ts) => in_order(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { anagrams_in(ts@[i]) } else { Seq::empty() }), ts@.len() as int),
        Ast::Repetition { term, min, max } => anagrams_in(*term),
        Ast::Anagram { kind, bank } => seq![(kind, bank@)],
    }
}
pub open spec fn within_each(ts: Seq<Ast>) -> Seq<Seq<(AnagramKind, Seq<Char>)>> { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { anagrams_in(ts[i]) } else { Seq::empty() }) }
pub proof fn lemma_anagrams_in(t: Ast)
    ensures t is Alternatives || t is Sequence || t is Substring ==> anagrams_in(t) == in_order(within_each(terms_of(t)), terms_of(t).len() as int)
{
    let ts = terms_of(t);
    assert forall|s: Seq<Seq<(AnagramKind, Seq<Char>)>>, j: int| s.len() == ts.len() && (forall|i: int| 0 <= i < ts.len() ==> #[trigger] s[i] == anagrams_in(ts[i])) implies #[trigger] in_order(s, j) == in_order(within_each(ts), j) by { assert(s =~= within_each(ts)); }
}
/// The anagrams of the terms from `k` on come after those before
pub proof fn lemma_joined(ss: Seq<Seq<(AnagramKind, Seq<Char>)>>, k: int, n: int)
    requires 0 <= k <= n
    ensures in_order(ss, k).len() <= in_order(ss, n).len(), in_order(ss, n).take(in_order(ss, k).len() as int) == in_order(ss, k)
    decreases n - k
{
    if k < n {
        lemma_joined(ss, k, n - 1);
        assert(in_order(ss, n).take(in_order(ss, k).len() as int) =~= in_order(ss, n - 1).take(in_order(ss, k).len() as int));
    } else { assert(in_order(ss, n).take(in_order(ss, k).len() as int) =~= in_order(ss, k)); }
}
pub open spec fn pairs(s: Seq<(AnagramKind, Vec<Char>)>) -> Seq<(AnagramKind, Seq<Char>)> { Seq::new(s.len(), |i: int| (s[i].0, s[i].1@)) }
pub open spec fn banks_ok(s: Seq<(AnagramKind, Seq<Char>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> a_bank((#[trigger] s[i]).1) }
pub proof fn lemma_banks(t: Ast)
    requires parsed(t)
    ensures banks_ok(anagrams_in(t))
    decreases t
{
    match t {
        Ast::CharClass(b) => {}
        Ast::Repetition { term, min, max } => { lemma_banks(*term); }
        Ast::Anagram { kind, bank } => {}
        _ => {
            let ts = terms_of(t);
            lemma_anagrams_in(t);
            assert forall|i: int| 0 <= i < ts.len() implies banks_ok(#[trigger] within_each(ts)[i]) by { assert(parsed(ts[i])); lemma_banks(ts[i]); }
            lemma_banks_joined(within_each(ts), ts.len() as int);
        }
    }
}
proof fn lemma_banks_joined(ss: Seq<Seq<(AnagramKind, Seq<Char>)>>, k: int)
    requires 0 <= k <= ss.len(), forall|i: int| 0 <= i < ss.len() ==> banks_ok(#[trigger] ss[i])
    ensures banks_ok(in_order(ss, k))
    decreases k
{
    if k > 0 {
        lemma_banks_joined(ss, k - 1);
        let x = in_order(ss, k - 1);
        assert forall|i: int| 0 <= i < in_order(ss, k).len() implies a_bank((#[trigger] in_order(ss, k)[i]).1) by { if i < x.len() { assert(a_bank(x[i].1)); } else { assert(banks_ok(ss[k - 1])); assert(a_bank(ss[k - 1][i - x.len()].1)); } }
    }
}

// ---- wrappers

pub proof fn lemma_in_bank(bank: Seq<Char>, s: int)
    requires good(bank)
    ensures (cnt(bank, s) > 0) == exists|i: int| 0 <= i < letters_of(bank).len() && (#[trigger] letters_of(bank)[i]).0.sym() == s
{
    lemma_histogram(bank, SYMBOLS as int);
    if cnt(bank, s) > 0 { lemma_cnt(bank, s); let i = choose|i: int| 0 <= i < bank.len() && (#[trigger] bank[i]).sym() == s; assert(bank[i].wf()); }
    if exists|i: int| 0 <= i < letters_of(bank).len() && (#[trigger] letters_of(bank)[i]).0.sym() == s { let i = choose|i: int| 0 <= i < letters_of(bank).len() && (#[trigger] letters_of(bank)[i]).0.sym() == s; assert(cnt(bank, letters_of(bank)[i].0.sym()) > 0); }
}
/// The pattern for one letter
pub proof fn lemma_pattern(kind: AnagramKind, bank: Seq<Char>, nth: int, seq: Vec<Ast>, ch: Char, fill: CharBitset, count: int)
    requires a_bank(bank), 0 <= nth < letters_of(bank).len(), letters_of(bank)[nth].0 == ch, letters_of(bank)[nth].1 == count, 0 <= count <= usize::MAX, seq@.len() == 2 * count + 1, fill.wf(),
        forall|s: int| #[trigger] fill.has_sym(s) == if mode(kind) is AtLeast { is_letter(s) } else { cnt(bank, s) > 0 && s != ch.sym() },
        exists|c: CharBitset| #[trigger] shaped(seq@, kind, ch, fill, c, count),
    ensures demands(Ast::Sequence(seq), kind, bank, nth)
{
    let c = choose|c: CharBitset| #[trigger] shaped(seq@, kind, ch, fill, c, count);
    let t = Ast::Sequence(seq);
    let md = mode(kind);
    let s = ch.sym();
    lemma_lang(t);
    lemma_histogram(bank, SYMBOLS as int);
    lemma_in_bank(bank, s);
    assert(letters_of(bank)[nth].0.sym() == s);
    lemma_cnt(bank, s);
    assert(is_letter(s)) by { let i = choose|i: int| 0 <= i < bank.len() && (#[trigger] bank[i]).sym() == s; assert(is_letter(bank[i].sym())); }
    assert(plain(Ast::CharClass(fill))); assert(plain(Ast::CharClass(c)));
    assert(plain(t)) by { assert forall|i: int| 0 <= i < seq@.len() implies plain(#[trigger] seq@[i]) by { if i % 2 == 0 { assert(seq@[2 * (i / 2)] == seq@[i]); assert(is_fill(seq@[2 * (i / 2)], fill)); } else { assert(seq@[2 * (i / 2) + 1] == seq@[i]); assert(is_char(seq@[2 * (i / 2) + 1], md, c)); } } }
    let f = rep(one(fill), 0, None);
    let cl = if md is AtMost { rep(one(c), 0, Some(1usize)) } else { one(c) };
    let ls = langs(seq@);
    assert(alternates(ls, f, cl, count)) by {
        assert forall|i: int| 0 <= i <= count implies #[trigger] ls[2 * i] == f by { assert(is_fill(seq@[2 * i], fill)); lemma_lang_rep(seq@[2 * i], fill); }
        assert forall|i: int| 0 <= i < count implies #[trigger] ls[2 * i + 1] == cl by { assert(is_char(seq@[2 * i + 1], md, c)); if md is AtMost { lemma_lang_rep(seq@[2 * i + 1], c); } }
    }
    assert forall|v: Seq<Char>| good(v) implies #[trigger] lang(t)(v) == demand(kind, bank, nth, v) by {
        lemma_alternating(ls, fill, c, s, md, count, count, v);
        assert(filled(fill, s, v) == all_allowed(kind, bank, v)) by {
            if filled(fill, s, v) { assert forall|i: int| 0 <= i < v.len() implies allowed(kind, bank, (#[trigger] v[i]).sym()) by { } }
            if all_allowed(kind, bank, v) { assert forall|i: int| 0 <= i < v.len() implies fill.has_sym((#[trigger] v[i]).sym()) || v[i].sym() == s by { assert(allowed(kind, bank, v[i].sym())); } }
        }
    }
}
pub open spec fn is_fill(t: Ast, b: CharBitset) -> bool { t is Repetition && *t->term == Ast::CharClass(b) && t->min == 0 && t->max == None::<usize> }
pub open spec fn is_char(t: Ast, md: Mode, c: CharBitset) -> bool { if md is AtMost { t is Repetition && *t->term == Ast::CharClass(c) && t->min == 0 && t->max == Some(1usize) } else { t == Ast::CharClass(c) } }
pub open spec fn shaped(ts: Seq<Ast>, kind: AnagramKind, ch: Char, fill: CharBitset, c: CharBitset, count: int) -> bool {
    &&& c.wf() && forall|i: int| #[trigger] c.has_sym(i) == (i == ch.sym())
    &&& forall|i: int| 0 <= i <= count ==> is_fill(#[trigger] ts[2 * i], fill)
    &&& forall|i: int| 0 <= i < count ==> is_char(#[trigger] ts[2 * i + 1], mode(kind), c)
}
pub proof fn lemma_lang_rep(t: Ast, b: CharBitset)
    requires t is Repetition, *t->term == Ast::CharClass(b)
    ensures lang(t) == rep(one(b), t->min, t->max)
{ assert(lang(*t->term) == one(b)); }
/// The pattern for the length
pub proof fn lemma_length(kind: AnagramKind, bank: Seq<Char>, nth: int, b: CharBitset)
    requires a_bank(bank), nth >= letters_of(bank).len(), b.wf(), forall|s: int| #[trigger] b.has_sym(s) == if mode(kind) is AtLeast { is_letter(s) } else { cnt(bank, s) > 0 }
    ensures forall|t: Ast| t is Repetition && *t->term == Ast::CharClass(b) && lengths(kind, bank, t->min, t->max) ==> #[trigger] demands(t, kind, bank, nth)
{
    assert forall|t: Ast| t is Repetition && *t->term == Ast::CharClass(b) && lengths(kind, bank, t->min, t->max) implies #[trigger] demands(t, kind, bank, nth) by {
        lemma_lang_rep(t, b);
        assert(plain(*t->term));
        assert forall|v: Seq<Char>| good(v) implies #[trigger] lang(t)(v) == demand(kind, bank, nth, v) by {
            lemma_rep_one(b, t->min, t->max, v);
            assert(all_in(b, v) == all_allowed(kind, bank, v)) by {
                if all_in(b, v) { assert forall|i: int| 0 <= i < v.len() implies allowed(kind, bank, (#[trigger] v[i]).sym()) by { } }
                if all_allowed(kind, bank, v) { assert forall|i: int| 0 <= i < v.len() implies b.has_sym((#[trigger] v[i]).sym()) by { assert(allowed(kind, bank, v[i].sym())); } }
            }
        }
    }
}
pub open spec fn lengths(kind: AnagramKind, bank: Seq<Char>, min: usize, max: Option<usize>) -> bool { forall|l: int| l >= 0 ==> #[trigger] within(l, min, max) == length_ok(kind, bank.len() as int, l) }

/// (A derived `clone` gives an equal value)
#[verifier::external_body]
pub fn copy_tree(t: &Ast) -> (r: Ast) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn copy_expression(t: &ExpressionAst) -> (r: ExpressionAst) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn copy_bank(v: &Vec<Char>) -> (r: Vec<Char>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn copy_entries(v: &[(Char, usize)]) -> (r: Vec<(Char, usize)>) ensures r@ == v@ { v.into() }
#[verifier::external_body]
pub fn zeros_(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { vec![0; n] }
/// An element of a vector (a vector whose elements are left as they are stays as it is)
#[verifier::external_body]
pub fn element<'a>(v: &'a mut Vec<Ast>, i: usize) -> (r: &'a mut Ast)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), *final(r) == old(v)@[i as int] ==> *final(v) == *old(v)
{ &mut v[i] }
""")
    outer = m.src.fn("expand_expressions", "impl QueryAst")
    SUM = "the sum is written out as the loop it performs"
    m.add_fn(m.src.nested(outer, "ast_for_anagram"), Fn(sig="""    requires histogram@ == letters_of(bank_@), a_bank(bank_@)
    ensures demands(r, kind, bank_@, nth as int)""", attrs=ATTRS,
        rules=[("nth: usize) -> Ast", "nth: usize, bank_: Ghost<Seq<Char>>) -> Ast", "the letters are a ghost argument"),
               ("let total_length = $rx.iter().map(|(_, $iy)| $e).sum();", "let mut total_length: usize = 0; let mut k_: usize = 0; while k_ < $rx.len() { let $iy = $rx[k_].1; total_length += $e; k_ += 1; }", SUM),
               ("let mut histogram: Vec<_> = histogram.into();", "let mut histogram: Vec<(Char, usize)> = copy_entries(histogram);", "a function of the library is a wrapper with an assumed contract"),
               ("$rx.iter().for_each(|($ic, _)| char_bitset.union_with($e));", "let mut k_: usize = 0; while k_ < $rx.len() { let $ic = &$rx[k_].0; char_bitset.union_with($e); k_ += 1; }", WRITTEN),
               ("c.into()", "CharBitset::from_char_ref(c)", "the trait function is verified as an inherent one of another name"),
               ("ch.into()", "CharBitset::from_char(ch)", "the trait function is verified as an inherent one of another name"),
               ("let mut seq = vec![];", "let mut seq: Vec<Ast> = Vec::new();", "a macro"),
               ("$r.clone()", "copy_tree(&$r)", "a derived `clone` gives an equal value"),
               ("for _ in 0..$e {", "let mut k_: usize = 0; while k_ < $e { k_ += 1;", "a loop over numbers")],
        start="        let ghost h0 = histogram@; let ghost bank = bank_@; proof { lemma_histogram(bank, SYMBOLS as int); lemma_sum_is(bank); }",
        loops=[Loop("            invariant k_ <= h0.len(), histogram@ == h0, total_length == sum_of(h0.take(k_ as int)), sum_of(h0) == bank.len()\n            decreases h0.len() - k_",
                    before="            proof { assert(h0.take(0) =~= Seq::empty()); }", start="            proof { lemma_sum_take(h0, k_ + 1); }"),
               Loop("            invariant k_ <= h0.len(), histogram@ == h0, forall|s: int| #[trigger] char_bitset.has_sym(s) == (exists|i: int| 0 <= i < k_ && (#[trigger] h0[i]).0.sym() == s)\n            decreases h0.len() - k_",
                    before="            proof { assert(h0.take(h0.len() as int) =~= h0); lemma_consts(); }", start="            let ghost cb0_ = char_bitset;",
                    end="            proof { assert forall|s: int| #[trigger] char_bitset.has_sym(s) == (exists|i: int| 0 <= i < k_ && (#[trigger] h0[i]).0.sym() == s) by { if cb0_.has_sym(s) { let i = choose|i: int| 0 <= i < k_ - 1 && (#[trigger] h0[i]).0.sym() == s; assert(h0[i].0.sym() == s); } if h0[k_ - 1].0.sym() == s { assert(char_bitset.has_sym(s)); } } }",
                    after="            proof { assert forall|s: int| #[trigger] char_bitset.has_sym(s) == (cnt(bank, s) > 0) by { lemma_in_bank(bank, s); } }"),
               Loop("                invariant k_ <= count, seq@.len() == 2 * k_, forall|i: int| 0 <= i < k_ ==> #[trigger] seq@[2 * i] == fill_ast && seq@[2 * i + 1] == char_ast\n                decreases count - k_")],
        at=[("Ast::Sequence(seq)", "before", "                proof { let fb_ = if mode(kind) is AtLeast { CharBitset::LETTERS } else { fill_bitset }; let md_ = mode(kind); assert(is_fill(fill_ast, fb_)); assert(is_char(char_ast, md_, cls_)); assert(cls_.wf()); assert(fb_.wf()); assert forall|i: int| 0 <= i <= count implies is_fill(#[trigger] seq@[2 * i], fb_) by { if i < count { assert(seq@[2 * i] == fill_ast); } } assert forall|i: int| 0 <= i < count implies is_char(#[trigger] seq@[2 * i + 1], md_, cls_) by { assert(seq@[2 * i] == fill_ast && seq@[2 * i + 1] == char_ast); } assert(shaped(seq@, kind, ch, fb_, cls_, count as int)); lemma_pattern(kind, bank, nth as int, seq, ch, fb_, count as int); }"),
            ("let char_ast = Ast::CharClass($e);", "after", "                let ghost cls_ = char_ast->CharClass_0; proof { assert(h0[nth as int] == (ch, count)); assert(is_letter(ch.sym())) by { lemma_in_bank(bank, ch.sym()); assert(h0[nth as int].0.sym() == ch.sym()); lemma_cnt(bank, ch.sym()); let i = choose|i: int| 0 <= i < bank.len() && (#[trigger] bank[i]).sym() == ch.sym(); assert(is_letter(bank[i].sym())); } }"),
            ("match kind { AnagramKind::Standard => $e", "before", "                proof { lemma_length(kind, bank, nth as int, if mode(kind) is AtLeast { CharBitset::LETTERS } else { char_bitset }); }")]),
        "ast_for_anagram")
    m.text(r"""
/// The patterns that stand for an anagram
pub open spec fn stand_for(rs: Seq<Vec<Ast>>, a: Seq<(AnagramKind, Seq<Char>)>, n: int) -> bool {
    rs.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] rs[k])@.len() == n && forall|i: int| 0 <= i < n ==> demands(#[trigger] rs[k]@[i], a[k].0, a[k].1, i)
}
""")
    CLOSURE = "a function with a function as an argument is written out for each of the two functions it is called with"
    calls = []
    toks = lex(outer.core)
    for i in range(len(toks)):
        r = match_pattern(lex("visit(&mut expression.root, &mut |node: &mut Ast| { $z });"), toks, i)
        if r:
            a, b = r[1]["$z"]
            calls.append(outer.core[toks[a].a:toks[b - 1].b])
    if len(calls) != 2:
        raise LostAnchor(f"{len(calls)} calls of visit")

    def special(name, body, params, args):
        it = m.src.nested(outer, "visit")
        new = Item("fn", name, it.header, it.core, [], 0)
        t = it.core
        for pat, rep in (("fn visit<F>(node: &mut Ast, action: &mut F) where F: FnMut(&mut Ast), {", f"fn {name}(node: &mut Ast, {params}) {{"),
                         ("action(node)", "{ " + body + " }"), ("visit($x, action)", f"{name}($x, {args})")):
            t, n = rewrite(t, pat, rep)
            if not n:
                raise LostAnchor(f"visit: no `{pat}`")
            m.log.append((f"anagrams::{name}", pat, rep, n, CLOSURE))
        new.core = t
        return new
    ARMS = ("Ast::Alternatives($ia) | Ast::Sequence($ib) | Ast::Substring($ic) => { $z }", "Ast::Alternatives($ia) => { $z } Ast::Sequence($ib) => { $z } Ast::Substring($ic) => { $z }", "an arm with several patterns is written out as one for each")
    EACH = ("nodes.iter_mut().for_each(|$in| $e)", "{ let mut k_: usize = 0; while k_ < nodes.len() { let $in = element(nodes, k_); $e; k_ += 1; } }", WRITTEN)
    m.add_fn(special("visit_collect", calls[0], "anagrams: &mut Vec<(AnagramKind, Vec<Char>)>", "anagrams"), Fn(sig="""    ensures *final(node) == *old(node), pairs(final(anagrams)@) == pairs(old(anagrams)@) + anagrams_in(*old(node))
    decreases *old(node)""", attrs=ATTRS, rules=[ARMS, EACH, ("bank.clone()", "copy_bank(bank)", "a function of the library is a wrapper with an assumed contract")],
        start="        let ghost a0 = anagrams@; let ghost t0 = *node; proof { lemma_anagrams_in(t0); }",
        loops=[Loop("""            invariant *nodes == nv0_, nv0_@ == terms_of(t0), k_ <= nv0_@.len(), pairs(anagrams@) == pairs(a0) + in_order(within_each(nv0_@), k_ as int)
            decreases nv0_@.len() - k_""", before="            let ghost nv0_ = *nodes; proof { assert(pairs(a0) + in_order(within_each(nv0_@), 0) =~= pairs(a0)); }",
            start="            proof { assert(decreases_to!(t0 => nv0_@[k_ as int])); }",
            end="            proof { assert(pairs(a0) + in_order(within_each(nv0_@), k_ as int) =~= (pairs(a0) + in_order(within_each(nv0_@), k_ - 1)) + within_each(nv0_@)[k_ - 1]); }")] * 3,
        at=[("anagrams.push($e);", "before", "                let ghost p0_ = pairs(anagrams@);"), ("anagrams.push($e);", "after", "                proof { assert(pairs(anagrams@) =~= p0_ + anagrams_in(t0)); }")]), "visit (collecting)")
    m.add_fn(special("visit_replace", "let mut j = *j_; " + calls[1] + " *j_ = j;", "replacements: &Vec<Vec<Ast>>, i: usize, j_: &mut usize, all_: Ghost<Seq<(AnagramKind, Seq<Char>)>>, n_: Ghost<int>", "replacements, i, j_, all_, n_"), Fn(sig="""    requires stand_for(replacements@, all_@, n_@), i < n_@, *old(j_) + anagrams_in(*old(node)).len() <= all_@.len(), all_@.subrange(*old(j_) as int, *old(j_) + anagrams_in(*old(node)).len()) == anagrams_in(*old(node))
    ensures replaced(*old(node), *final(node), i as int), *final(j_) == *old(j_) + anagrams_in(*old(node)).len()
    decreases *old(node)""", attrs=ATTRS, rules=[ARMS, EACH, ("$r[j][i].clone()", "copy_tree(&$r[j][i])", "a derived `clone` gives an equal value")],
        start="        let ghost t0 = *node; let ghost j0 = *j_ as int; let ghost all = all_@; let ghost mine = anagrams_in(t0); proof { lemma_anagrams_in(t0); }",
        loops=[Loop("""            invariant nv0_@ == terms_of(t0), nodes@.len() == nv0_@.len(), k_ <= nv0_@.len(), *j_ == j0 + in_order(ea_, k_ as int).len(), forall|x: int| k_ <= x < nv0_@.len() ==> nodes@[x] == nv0_@[x],
                forall|x: int| 0 <= x < k_ ==> replaced(#[trigger] nv0_@[x], nodes@[x], i as int)
            decreases nv0_@.len() - k_""", before="            let ghost nv0_ = *nodes; let ghost ea_ = within_each(nv0_@);",
            start="            proof { lemma_joined(ea_, k_ + 1, nv0_@.len() as int); lemma_joined(ea_, k_ as int, k_ + 1); let l_ = in_order(ea_, k_ as int).len() as int; let m_ = in_order(ea_, k_ + 1); assert(m_.subrange(l_, m_.len() as int) =~= ea_[k_ as int]); assert(all.subrange(j0 + l_, j0 + m_.len()) =~= mine.subrange(l_, m_.len() as int)); assert(mine.subrange(l_, m_.len() as int) =~= mine.take(m_.len() as int).subrange(l_, m_.len() as int)); assert(decreases_to!(t0 => nv0_@[k_ as int])); }")] * 3,
        at=[("*node = $e;", "before", "            proof { assert(replacements.len() == replacements@.len()); assert(all[j as int] == all.subrange(j0, j0 + 1)[0]); assert(replacements@[j as int]@.len() == n_@); assert(demands(replacements@[j as int]@[i as int], all[j as int].0, all[j as int].1, i as int)); }")]), "visit (replacing)")
    row = Fn(sig="""    requires hist@ == letters_of(bank_@), a_bank(bank_@), max_unique_letters < usize::MAX
    ensures r@.len() == max_unique_letters + 1, forall|i: int| 0 <= i < r@.len() ==> demands(#[trigger] r@[i], *kind, bank_@, i)""", attrs=ATTRS,
        rules=[("(0..$e).map(|$ii| $x).collect::<Vec<_>>()", "{ let mut v_: Vec<Ast> = Vec::new(); let mut $ii: usize = 0; let end_: usize = $e; while $ii < end_ { v_.push($x); $ii += 1; } v_ }", WRITTEN),
               ("ast_for_anagram(*kind, hist, i)", "ast_for_anagram(*kind, hist.as_slice(), i, bank_)", "the letters are a ghost argument")],
        loops=[Loop("            invariant i <= end_, end_ == max_unique_letters + 1, v_@.len() == i, forall|x: int| 0 <= x < i ==> demands(#[trigger] v_@[x], *kind, bank_@, x)\n            decreases end_ - i")])
    row.part = ("let replacements: Vec<Vec<Ast>> = anagram_sets.iter().map(|(kind, hist)| { $z }).collect();", "fn row_(kind: &AnagramKind, hist: &Vec<(Char, usize)>, max_unique_letters: usize, bank_: Ghost<Seq<Char>>) -> Vec<Ast>", "$z")
    m.add_fn(outer, row, "QueryAst::expand_expressions: patterns of an anagram")
    count = Fn(sig="""    requires a_bank(bank@)
    ensures r.0 == *kind, r.1@ == letters_of(bank@)""", attrs=ATTRS,
        rules=[("let mut set: [usize; Char::_MAX] = [0; Char::_MAX];", "let mut set: Vec<usize> = zeros_(Char::_MAX);", "an array is a vector"),
               ("$rx.iter().for_each(|$il| $e);", "let mut k_: usize = 0; while k_ < $rx.len() { let $il = &$rx[k_]; $e; k_ += 1; }", WRITTEN),
               ("$rx.iter().enumerate().filter_map(|($ii, &$ic)| { $z }).collect()", "{ let mut v_: Vec<(Char, usize)> = Vec::new(); let mut $ii: usize = 0; while $ii < $rx.len() { let $ic = $rx[$ii]; match { $z } { Some(x_) => { v_.push(x_); } None => { } } $ii += 1; } v_ }", WRITTEN)],
        loops=[Loop("            invariant k_ <= bank@.len(), set@.len() == 28, forall|s: int| 0 <= s < 28 ==> #[trigger] set@[s] == cnt(bank@.take(k_ as int), s)\n            decreases bank@.len() - k_",
                    before="            proof { assert(bank.len() == bank@.len()); assert(bank@.take(0) =~= Seq::empty()); }",
                    start="            proof { assert(bank@[k_ as int].wf()); let d_ = bank@.take(k_ + 1); assert(d_.drop_last() =~= bank@.take(k_ as int)); lemma_counts_small(bank@.take(k_ as int)); }",
                    after="            proof { assert(bank@.take(k_ as int) =~= bank@); }"),
               Loop("            invariant i <= 28, set@.len() == 28, forall|s: int| 0 <= s < 28 ==> #[trigger] set@[s] == cnt(bank@, s), v_@ == histogram(bank@, i as int)\n            decreases 28 - i")])
    count.part = ("let anagram_sets: Vec<(_, Vec<_>)> = anagrams.iter().map(|(kind, bank)| { $z }).collect();", "fn histogram_(kind: &AnagramKind, bank: &Vec<Char>) -> (AnagramKind, Vec<(Char, usize)>)", "$z")
    m.text(r"""
proof fn lemma_counts_small(v: Seq<Char>)
    ensures forall|s: int| 0 <= #[trigger] cnt(v, s) <= v.len()
{ assert forall|s: int| 0 <= #[trigger] cnt(v, s) <= v.len() by { lemma_cnt(v, s); } }

// ---- all expressions of a query

/// The greatest number of letters of the anagrams
pub open spec fn widest(a: Seq<(AnagramKind, Seq<Char>)>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else if letters_of(a[n - 1].1).len() >= widest(a, n - 1) { letters_of(a[n - 1].1).len() as int } else { widest(a, n - 1) }
}
pub proof fn lemma_most(a: Seq<(AnagramKind, Seq<Char>)>, n: int)
    requires 0 <= n <= a.len()
    ensures 0 <= widest(a, n) <= SYMBOLS, forall|i: int| 0 <= i < n ==> letters_of((#[trigger] a[i]).1).len() <= widest(a, n)
    decreases n
{
    if n > 0 { lemma_most(a, n - 1); lemma_histogram(a[n - 1].1, SYMBOLS as int); }
}
/// How many patterns stand for a tree
pub open spec fn count_of(t: Ast) -> int { widest(anagrams_in(t), anagrams_in(t).len() as int) + 1 }
pub open spec fn expansion(a: ExpressionAst, b: ExpressionAst, n: int) -> bool { replaced(a.root, b.root, n) && a.options == b.options }
/// Each expression has a source; each source has all its expressions
#[verifier::opaque]
pub open spec fn expanded(os: Seq<ExpressionAst>, ns: Seq<ExpressionAst>) -> bool {
    &&& forall|y: int| 0 <= y < ns.len() ==> comes_from(os, #[trigger] ns[y])
    &&& forall|x: int, n: int| 0 <= x < os.len() && 0 <= n < count_of(os[x].root) ==> #[trigger] comes_to(os[x], ns, n)
}
pub open spec fn comes_from(os: Seq<ExpressionAst>, b: ExpressionAst) -> bool { exists|x: int, n: int| 0 <= x < os.len() && 0 <= n && #[trigger] expansion(os[x], b, n) }
pub open spec fn comes_to(a: ExpressionAst, ns: Seq<ExpressionAst>, n: int) -> bool { exists|y: int| 0 <= y < ns.len() && #[trigger] expansion(a, ns[y], n) }
pub open spec fn all_parsed(os: Seq<ExpressionAst>) -> bool { forall|x: int| 0 <= x < os.len() ==> parsed((#[trigger] os[x]).root) }
/// One more
proof fn lemma_one_more(os: Seq<ExpressionAst>, ns0: Seq<ExpressionAst>, ns: Seq<ExpressionAst>, k: int)
    requires 0 <= k < os.len(), expanded(os.take(k), ns0), ns.len() == ns0.len() + count_of(os[k].root), ns.take(ns0.len() as int) == ns0,
        forall|n: int| 0 <= n < count_of(os[k].root) ==> expansion(os[k], #[trigger] ns[ns0.len() + n], n)
    ensures expanded(os.take(k + 1), ns)
{
    reveal(expanded);
    let o0 = os.take(k); let o1 = os.take(k + 1);
    let l = ns0.len();
    assert forall|y: int| 0 <= y < ns.len() implies comes_from(o1, #[trigger] ns[y]) by {
        if y < l {
            assert(ns[y] == ns0[y]);
            assert(comes_from(o0, ns0[y]));
            let (x, n) = choose|x: int, n: int| 0 <= x < o0.len() && 0 <= n && #[trigger] expansion(o0[x], ns0[y], n);
            assert(expansion(o1[x], ns[y], n));
        } else { assert(expansion(os[k], ns[l + (y - l)], y - l)); assert(expansion(o1[k], ns[y], y - l)); }
    }
    assert forall|x: int, n: int| 0 <= x < o1.len() && 0 <= n < count_of(o1[x].root) implies #[trigger] comes_to(o1[x], ns, n) by {
        if x < k {
            assert(o1[x] == o0[x]);
            assert(comes_to(o0[x], ns0, n));
            let y = choose|y: int| 0 <= y < ns0.len() && #[trigger] expansion(o0[x], ns0[y], n);
            assert(ns[y] == ns0[y]);
            assert(expansion(o1[x], ns[y], n));
        } else { assert(expansion(o1[x], ns[l + n], n)); }
    }
}
""")
    m.add_fn(outer, count, "QueryAst::expand_expressions: letters of an anagram")
    main = Fn(sig="""    requires all_parsed(old(self).expressions@)
    ensures expanded(old(self).expressions@, final(self).expressions@), final(self).options == old(self).options""", attrs=ATTRS,
        rules=[("let mut new_expressions = vec![];", "let mut new_expressions: Vec<ExpressionAst> = Vec::new();", "a macro"),
               ("let mut anagrams = vec![];", "let mut anagrams: Vec<(AnagramKind, Vec<Char>)> = Vec::new();", "a macro"),
               ("let mut expression: ExpressionAst = expression.clone();", "let mut expression: ExpressionAst = copy_expression(expression);", "a derived `clone` gives an equal value"),
               ("let mut expression = expression.clone();", "let mut expression = copy_expression(&expression);", "a derived `clone` gives an equal value"),
               (f"visit(&mut expression.root, &mut |node: &mut Ast| {{ {calls[0]} }});", "visit_collect(&mut expression.root, &mut anagrams);", CLOSURE),
               (f"visit(&mut expression.root, &mut |node: &mut Ast| {{ {calls[1]} }});", "visit_replace(&mut expression.root, &replacements, i, &mut j, Ghost(all_), Ghost(wide_));", CLOSURE),
               ("let mut j = 0;", "let mut j: usize = 0;", "type of a literal"),
               ("let anagram_sets: Vec<(_, Vec<_>)> = anagrams.iter().map(|(kind, bank)| { $z }).collect();", "let mut anagram_sets: Vec<(AnagramKind, Vec<(Char, usize)>)> = Vec::new(); let mut k_: usize = 0; while k_ < anagrams.len() { anagram_sets.push(histogram_(&anagrams[k_].0, &anagrams[k_].1)); k_ += 1; }", WRITTEN),
               ("$rx.iter().map(|($iz, $ih)| $e).max().unwrap_or(0)", "{ let mut k_: usize = 0; let mut most_: usize = 0; while k_ < $rx.len() { let $ih = &$rx[k_].1; let x_ = $e; if x_ >= most_ { most_ = x_; } k_ += 1; } most_ }", WRITTEN),
               ("let replacements: Vec<Vec<Ast>> = anagram_sets.iter().map(|(kind, hist)| { $z }).collect();", "let mut replacements: Vec<Vec<Ast>> = Vec::new(); let mut k_: usize = 0; while k_ < anagram_sets.len() { replacements.push(row_(&anagram_sets[k_].0, &anagram_sets[k_].1, max_unique_letters, Ghost(all_[k_ as int].1))); k_ += 1; }", WRITTEN),
               ("for $ii in 0..$e {", "let end_: usize = $e; let mut next_: usize = 0; while next_ < end_ { let $ii = next_; next_ += 1;", "a loop over numbers")],
        start="        let ghost os = self.expressions@; let ghost me0 = *self;",
        loops=[Loop("            invariant k_expression <= os.len(), *self == me0, expanded(os.take(k_expression as int), new_expressions@)\n            decreases os.len() - k_expression",
                    before="            proof { reveal(expanded); assert(os.take(0) =~= Seq::empty()); }", end="            proof { lemma_one_more(os, news0_, new_expressions@, k_expression - 1); }",
                    start="            let ghost news0_ = new_expressions@; let ghost source_ = os[k_expression as int];", after="            proof { assert(os.take(os.len() as int) =~= os); }"),
               Loop("            invariant k_ <= all_.len(), anagram_sets@.len() == k_, pairs(anagrams@) == all_, banks_ok(all_), forall|x: int| 0 <= x < k_ ==> (#[trigger] anagram_sets@[x]).0 == all_[x].0 && anagram_sets@[x].1@ == letters_of(all_[x].1)\n            decreases all_.len() - k_",
                    before="            let ghost all_ = anagrams_in(source_.root); proof { lemma_banks(source_.root); assert(pairs(anagrams@) =~= all_); }", start="            proof { assert(pairs(anagrams@)[k_ as int] == all_[k_ as int]); assert(a_bank(all_[k_ as int].1)); }"),
               Loop("            invariant k_ <= all_.len(), anagram_sets@.len() == all_.len(), most_ == widest(all_, k_ as int), forall|x: int| 0 <= x < all_.len() ==> (#[trigger] anagram_sets@[x]).0 == all_[x].0 && anagram_sets@[x].1@ == letters_of(all_[x].1)\n            decreases all_.len() - k_",
                    after="            proof { lemma_most(all_, all_.len() as int); }"),
               Loop("            invariant k_ <= all_.len(), replacements@.len() == k_, anagram_sets@.len() == all_.len(), banks_ok(all_), forall|x: int| 0 <= x < all_.len() ==> (#[trigger] anagram_sets@[x]).0 == all_[x].0 && anagram_sets@[x].1@ == letters_of(all_[x].1),\n                stand_for(replacements@, all_.take(k_ as int), wide_)\n            decreases all_.len() - k_",
                    before="            let ghost wide_ = max_unique_letters + 1; proof { assert(all_.take(0) =~= Seq::empty()); }", start="            let ghost rs0_ = replacements@; proof { assert(a_bank(all_[k_ as int].1)); }",
                    end="            proof { let n1_ = all_.take(k_ as int); assert(all_.take(k_ - 1) =~= n1_.drop_last()); assert forall|x: int| 0 <= x < n1_.len() implies (#[trigger] replacements@[x])@.len() == wide_ && (forall|i: int| 0 <= i < wide_ ==> demands(#[trigger] replacements@[x]@[i], n1_[x].0, n1_[x].1, i)) by { if x < k_ - 1 { assert(replacements@[x] == rs0_[x]); assert(all_.take(k_ - 1)[x] == n1_[x]); } else { assert(n1_[x] == all_[x]); } } }",
                    after="            proof { assert(all_.take(all_.len() as int) =~= all_); }"),
               Loop("            invariant next_ <= end_, end_ == wide_, new_expressions@.len() == news0_.len() + next_, new_expressions@.take(news0_.len() as int) == news0_, expression == source_, stand_for(replacements@, all_, wide_),\n                forall|n: int| 0 <= n < next_ ==> expansion(source_, #[trigger] new_expressions@[news0_.len() + n], n)\n            decreases end_ - next_",
                    before="            proof { assert(new_expressions@.take(news0_.len() as int) =~= news0_); }", start="            let ghost ne0_ = new_expressions@; proof { assert(all_.subrange(0, all_.len() as int) =~= all_); }",
                    end="            proof { assert(new_expressions@.take(news0_.len() as int) =~= ne0_.take(news0_.len() as int)); assert forall|n: int| 0 <= n < next_ implies expansion(source_, #[trigger] new_expressions@[news0_.len() + n], n) by { if n < next_ - 1 { assert(new_expressions@[news0_.len() + n] == ne0_[news0_.len() + n]); } } }")])
    m.parts.append(("impl QueryAst {", None))
    from extract import without_nested
    flat = Item("fn", outer.name, outer.header, outer.text, [], 0)
    flat.core = without_nested(outer.core)
    m.add_fn(flat, main, "QueryAst::expand_expressions")
    m.text("}")
    return m
