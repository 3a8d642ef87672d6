"""The phases in their order, and the tables that the search for phrases begins with"""
from build import Module
from extract import Fn, Loop

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
EACH = "a `for` loop over references is written out as a `while` loop over the indexes"
LIB = "a function of the library is a wrapper with an assumed contract"
ASSERT = "an assertion becomes a proof obligation"
WRITTEN = "the adaptors of the iterator are written out as the loop they perform"
MOST = "the greatest element is found by a loop"
RETAIN = "retaining is written out as a loop which removes elements"


def most(xs):
    return (f"{xs}.iter().map(|$ip| $e).max().unwrap()", f"{{ let mut k_: usize = 1; let mut most_ = {{ let $ip = &{xs}[0]; $e }}; while k_ < {xs}.len() {{ let $ip = &{xs}[k_]; let x_ = $e; if x_ >= most_ {{ most_ = x_; }} k_ += 1; }} most_ }}", MOST)


def module():
    m = Module("layers", "query.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
use super::expression::*;
use super::phrases::*;
use super::wordlist::*;
use super::matcher::*;
use super::search::*;
use super::tranches::*;
use super::narrow::*;
use super::query::*;
use super::prepare::*;
use super::converge::*;

// ---- the sizes of the phases

pub open spec fn of_class(al: Seq<&Word>, t: int) -> bool { exists|w: int| 0 <= w < al.len() && #[trigger] tranche_of(al, w) == t }
/// The phases with a class that some word has
#[verifier::opaque]
pub open spec fn sized_phases(al: Seq<&Word>, q: Seq<SearchPhase>, r: Seq<SearchPhase>) -> bool {
    &&& distinct(r) && forall|i: int| 0 <= i < r.len() ==> listed(q, (#[trigger] r[i]).depth as int, r[i].tranche as int) && of_class(al, r[i].tranche as int)
    &&& forall|i: int| 0 <= i < q.len() && of_class(al, (#[trigger] q[i]).tranche as int) ==> listed(r, q[i].depth as int, q[i].tranche as int)
}
#[verifier::external_body]
pub fn no_counts(n: usize) -> (r: Vec<u64>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { vec![0; n] }
#[verifier::external_body]
pub fn power(x: u64, k: u32) -> (r: u64)
    ensures x >= 1 ==> r >= 1 { x.saturating_pow(k) }
/// (what sorting by a key does)
#[verifier::external_body]
pub fn sort_phases(v: &mut Vec<SearchPhase>, key: Ghost<spec_fn(SearchPhase) -> int>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: SearchPhase| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), distinct(old(v)@) ==> distinct(final(v)@),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key@(#[trigger] final(v)@[i]) <= key@(#[trigger] final(v)@[j])
{ unimplemented!() }
pub open spec fn counted(al: Seq<&Word>, cs: Seq<u64>, k: int) -> bool {
    forall|t: int| 0 <= t < cs.len() ==> (#[trigger] cs[t]) <= k && (cs[t] > 0) == exists|w: int| 0 <= w < k && #[trigger] tranche_of(al, w) == t
}
proof fn lemma_counted(al: Seq<&Word>, cs: Seq<u64>, k: int, ds: Seq<u64>)
    requires counted(al, cs, k), 0 <= k < al.len(), al[k].tranche < cs.len(), cs[al[k].tranche as int] < u64::MAX, ds == cs.update(al[k].tranche as int, (cs[al[k].tranche as int] + 1) as u64)
    ensures counted(al, ds, k + 1)
{
    assert forall|t: int| 0 <= t < ds.len() implies (#[trigger] ds[t]) <= k + 1 && (ds[t] > 0) == exists|w: int| 0 <= w < k + 1 && #[trigger] tranche_of(al, w) == t by {
        assert(cs[t] <= k);
        if t == al[k].tranche { assert(tranche_of(al, k) == t); }
        else {
            assert(ds[t] == cs[t]);
            if ds[t] > 0 { let w = choose|w: int| 0 <= w < k && #[trigger] tranche_of(al, w) == t; assert(0 <= w < k + 1 && tranche_of(al, w) == t); }
            if exists|w: int| 0 <= w < k + 1 && #[trigger] tranche_of(al, w) == t { let w = choose|w: int| 0 <= w < k + 1 && #[trigger] tranche_of(al, w) == t; assert(w < k); }
        }
    }
}
pub open spec fn summed(cs: Seq<u64>, sums: Seq<u64>, k: int) -> bool { sums.len() == k && forall|t: int| 0 <= t < k ==> (#[trigger] sums[t]) >= cs[t] }
/// The same phases
pub open spec fn same_phases(q: Seq<SearchPhase>, r: Seq<SearchPhase>) -> bool { q.len() == r.len() && forall|i: int| #![trigger r[i]] #![trigger q[i]] 0 <= i < q.len() ==> r[i].depth == q[i].depth && r[i].tranche == q[i].tranche }
pub open spec fn nonempty() -> spec_fn(SearchPhase) -> bool { |p: SearchPhase| p.total_size > 0 }
proof fn lemma_sized_phases(al: Seq<&Word>, q: Seq<SearchPhase>, s: Seq<SearchPhase>, r: Seq<SearchPhase>)
    requires distinct(q), same_phases(q, s), forall|i: int| 0 <= i < q.len() ==> (#[trigger] s[i].total_size > 0) == of_class(al, s[i].tranche as int),
        distinct(s.filter(nonempty())) ==> distinct(r), forall|x: SearchPhase| #[trigger] r.contains(x) == s.filter(nonempty()).contains(x)
    ensures sized_phases(al, q, r)
{
    reveal(sized_phases);
    let f = s.filter(nonempty());
    lemma_filter(s, nonempty());
    assert(distinct(s)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].depth != (#[trigger] s[j]).depth || s[i].tranche != s[j].tranche by { assert(q[i].depth != q[j].depth || q[i].tranche != q[j].tranche); } }
    assert forall|i: int| 0 <= i < r.len() implies listed(q, (#[trigger] r[i]).depth as int, r[i].tranche as int) && of_class(al, r[i].tranche as int) by {
        let x = r[i];
        assert(r.contains(x));
        let j = choose|j: int| 0 <= j < f.len() && f[j] == x;
        assert(s.contains(f[j]) && nonempty()(f[j]));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
        assert(s[k].total_size > 0);
        assert(is_phase(q[k], x.depth as int, x.tranche as int));
    }
    assert forall|i: int| 0 <= i < q.len() && of_class(al, (#[trigger] q[i]).tranche as int) implies listed(r, q[i].depth as int, q[i].tranche as int) by {
        let x = s[i];
        assert(s[i].depth == q[i].depth && s[i].tranche == q[i].tranche);
        assert(s[i].total_size > 0);
        assert(s.contains(x) && nonempty()(x));
        assert(f.contains(x));
        assert(r.contains(x));
        let j = choose|j: int| 0 <= j < r.len() && r[j] == x;
        assert(is_phase(r[j], q[i].depth as int, q[i].tranche as int));
    }
}
// ---- the tables

/// The tables of the first layer, for the first `i` matchers
#[verifier::opaque]
pub open spec fn started(t: BitSet3D, ms: Seq<PhraseMatcher>, i: int) -> bool {
    &&& forall|j: int| 0 <= j < i ==> holds(of(t, j), t.size.1 as int, #[trigger] ms[j], Seq::<int>::empty())
    &&& forall|j: int| i <= j < ms.len() ==> no_bits(#[trigger] of(t, j))
}
proof fn lemma_roomy_new(t: BitSet3D, ms: Seq<PhraseMatcher>, f: int, n: int)
    requires 1 <= ms.len() <= 0xffff_ffff, 1 <= f <= 16384, 1 <= n <= 16384, t.size.0 == f, t.size.1 == blocks_for(n), t.blocks@.len() == (ms.len() * f) * blocks_for(n),
        forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).ok() && 1 <= ms[i].fuzz_limit <= f && 1 <= ms[i].states_len <= n
    ensures roomy(t, ms)
{
    reveal(roomy);
    usize_64();
    let k = blocks_for(n);
    assert(1 <= k <= 512);
    let l = ms.len() as int;
    assert(1 <= l * f <= 0xffff_ffff * 16384) by (nonlinear_arith) requires 1 <= l <= 0xffff_ffff, 1 <= f <= 16384;
    assert((l * f) * k <= 0xffff_ffff * 16384 * 512) by (nonlinear_arith) requires 1 <= l * f <= 0xffff_ffff * 16384, 1 <= k <= 512;
}
proof fn lemma_none_started(t: BitSet3D, ms: Seq<PhraseMatcher>)
    requires roomy(t, ms), no_bits(t.blocks@)
    ensures started(t, ms, 0)
{
    reveal(started);
    assert forall|j: int| 0 <= j < ms.len() implies no_bits(#[trigger] of(t, j)) by { lemma_roomy(t, ms, j); lemma_no_bits_in(t.blocks@, t.size.outer_lo(j as usize), t.size.outer_hi(j as usize)); }
}
/// The start states are in the first row
proof fn lemma_started(t: BitSet3D, u: BitSet3D, ms: Seq<PhraseMatcher>, i: int, x: Seq<u32>)
    requires roomy(t, ms), started(t, ms, i), 0 <= i < ms.len(), u.size == t.size, u.blocks@ == t.with_row((i as usize, 0), x), x.len() == t.size.1,
        forall|y: int| #[trigger] isset(x, y) == isset(ms[i].start_states.blocks@, y)
    ensures roomy(u, ms), started(u, ms, i + 1)
{
    let (f, k) = (t.size.0 as int, t.size.1 as int);
    lemma_roomy(t, ms, i);
    let s = of(t, i);
    assert(f >= 1 && ms[i].fuzz_limit <= f) by { reveal(roomy); }
    let z = x + s.skip(k);
    assert(k <= f * k) by (nonlinear_arith) requires f >= 1, k >= 0;
    assert(k * (f * i + 0) == (f * k) * i) by (nonlinear_arith);
    assert(u.blocks@ =~= splice(t.blocks@, t.size.outer_lo(i as usize), z));
    lemma_roomy_splice(t, u, ms, i, z);
    reveal(started);
    assert(holds(of(u, i), k, ms[i], Seq::<int>::empty())) by {
        reveal(holds);
        assert forall|g: int, y: int| 0 <= g < ms[i].fuzz_limit implies #[trigger] isset(rows(of(u, i), k, g), y) == ms[i].reaches(Seq::<int>::empty())(g, y) by {
            assert(k * g + k <= f * k) by (nonlinear_arith) requires g + 1 <= f, k >= 0;
            assert(0 <= k * g) by (nonlinear_arith) requires g >= 0, k >= 0;
            if g == 0 { assert(rows(z, k, 0) =~= x); } else {
                assert(k <= k * g) by (nonlinear_arith) requires g >= 1, k >= 0;
                lemma_no_bits_in(s, k * g, k * g + k);
                assert(rows(z, k, g) =~= s.subrange(k * g, k * g + k));
            }
        }
    }
    assert forall|j: int| 0 <= j < i + 1 implies holds(of(u, j), u.size.1 as int, #[trigger] ms[j], Seq::<int>::empty()) by { if j < i { assert(of(u, j) == of(t, j)); } }
    assert forall|j: int| i + 1 <= j < ms.len() implies no_bits(#[trigger] of(u, j)) by { assert(of(u, j) == of(t, j)); }
}
/// Clearing the tables of a matcher changes nothing
proof fn lemma_cleared(t: BitSet3D, u: BitSet3D, ms: Seq<PhraseMatcher>, i: int)
    requires roomy(t, ms), started(t, ms, i), 0 <= i < ms.len(), u.size == t.size, u.blocks@ == splice(t.blocks@, t.size.outer_lo(i as usize), zeros(of(t, i).len()))
    ensures roomy(u, ms), started(u, ms, i)
{
    lemma_roomy(t, ms, i);
    lemma_zeros(of(t, i).len());
    lemma_roomy_splice(t, u, ms, i, zeros(of(t, i).len()));
    reveal(started);
    assert forall|j: int| 0 <= j < i implies holds(of(u, j), u.size.1 as int, #[trigger] ms[j], Seq::<int>::empty()) by { assert(of(u, j) == of(t, j)); }
    assert forall|j: int| i <= j < ms.len() implies no_bits(#[trigger] of(u, j)) by { if j > i { assert(of(u, j) == of(t, j)); } }
}
/// The first row of a matcher
proof fn lemma_first_row(t: BitSet3D, ms: Seq<PhraseMatcher>, i: int)
    requires roomy(t, ms), started(t, ms, i), 0 <= i < ms.len(), ms[i].tidy()
    ensures t.fits((i as usize, 0usize)), t.row((i as usize, 0usize)).len() == t.size.1, forall|y: int| !#[trigger] isset(t.row((i as usize, 0usize)), y), ms[i].start_states.blocks@.len() <= t.size.1
{
    let (f, k) = (t.size.0 as int, t.size.1 as int);
    lemma_roomy(t, ms, i);
    assert(f >= 1 && ms.len() * f <= usize::MAX && blocks_for(ms[i].states_len as int) <= k) by { reveal(roomy); }
    assert(ms[i].start_states.blocks@.len() <= k) by { reveal(PhraseMatcher::tidy); }
    assert(f * i <= ms.len() * f) by (nonlinear_arith) requires 0 <= i <= ms.len(), f >= 0;
    assert(k <= f * k) by (nonlinear_arith) requires f >= 1, k >= 0;
    assert(k * (f * i + 0) == (f * k) * i) by (nonlinear_arith);
    assert((f * k) * (i + 1) == (f * k) * i + f * k) by (nonlinear_arith);
    assert(no_bits(of(t, i))) by { reveal(started); }
    let r = t.row((i as usize, 0usize));
    assert(r =~= of(t, i).subrange(0, k));
    lemma_no_bits_in(of(t, i), 0, k);
}
pub open spec fn new_layer(l: SearchLayer, t: Tranche, ms: Seq<PhraseMatcher>) -> bool { l.word_index == 0 && l.max_tranche == t && roomy(l.table_matcher_fuzz_dst, ms) }
pub open spec fn taken<'a>(ms: Seq<WordMatcher<'a>>) -> Seq<PhraseMatcher> { ms.map_values(|m: WordMatcher<'a>| m.phrase_matcher) }
proof fn lemma_all_searching(ms: Seq<WordMatcher>, al: Seq<&Word>, q: Seq<SearchPhase>)
    requires able(ms, al, q), agreed(ms, al, 0), q.len() > 0, al.len() > 0
    ensures all_searching(taken(ms), al.len() as int), forall|i: int| 0 <= i < ms.len() ==> (#[trigger] taken(ms)[i]).ok() && taken(ms)[i].tidy()
{
    reveal(able); reveal(agreed);
    lemma_deepest(q);
    let n = al.len() as int;
    assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] taken(ms)[i]).searching(n) && taken(ms)[i].ok() && taken(ms)[i].tidy() by {
        let s = ms[i];
        let pm = s.phrase_matcher;
        assert(s.tight(deepest_of(q)) && s.named());
        reveal(WordMatcher::tight); reveal(WordMatcher::named); reveal(PhraseMatcher::searching); reveal(PhraseMatcher::ok); reveal(PhraseMatcher::tidy);
        assert forall|w: int| 0 <= w < n implies 0 < #[trigger] pm.word_classes@[w] < pm.classes.keys().len() by { assert(pm.word_classes@[w] != 0); }
        assert forall|w: int, d: int, f: int, x: int| 0 <= w < n && 0 <= d < pm.states_len && 0 <= f < pm.fuzz_limit && #[trigger] isset(at(pm.table(w), d, f), x) implies x < pm.states_len by { assert(pm.word_classes@[w] < pm.classes.keys().len()); assert(isset(at(pm.classes.keys()[pm.word_classes@[w] as int], d, f), x)); }
    }
}
pub proof fn lemma_sized_queue(al: Seq<&Word>, q: Seq<SearchPhase>, r: Seq<SearchPhase>, es: Seq<Expression>, ws: Seq<&Word>, limit: int)
    requires sized_phases(al, q, r), queued(es, ws, limit, q), sorted(al)
    ensures distinct(r), forall|i: int| 0 <= i < r.len() ==> 2 <= (#[trigger] r[i]).depth <= limit && tranche_of(al, 0) <= r[i].tranche
{
    reveal(sized_phases); reveal(queued);
    assert forall|i: int| 0 <= i < r.len() implies 2 <= (#[trigger] r[i]).depth <= limit && tranche_of(al, 0) <= r[i].tranche by {
        assert(listed(q, r[i].depth as int, r[i].tranche as int) && of_class(al, r[i].tranche as int));
        let j = choose|j: int| 0 <= j < q.len() && #[trigger] is_phase(q[j], r[i].depth as int, r[i].tranche as int);
        assert(2 <= q[j].depth <= limit);
        let w = choose|w: int| 0 <= w < al.len() && #[trigger] tranche_of(al, w) == r[i].tranche;
        assert(tranche_of(al, 0) <= tranche_of(al, w));
    }
}
proof fn lemma_first_layer(ms: Seq<PhraseMatcher>, al: Seq<&Word>, q: Seq<SearchPhase>, ls: Seq<SearchLayer>)
    requires ms.len() >= 1, al.len() >= 1, all_searching(ms, al.len() as int), sorted(al), distinct(q), q.len() > 0, forall|i: int| 0 <= i < q.len() ==> 2 <= (#[trigger] q[i]).depth < ls.len() && tranche_of(al, 0) <= q[i].tranche,
        forall|j: int| 0 <= j < ls.len() ==> new_layer(#[trigger] ls[j], al[0].tranche, ms), started(ls[0].table_matcher_fuzz_dst, ms, ms.len() as int)
    ensures searched(ms, al, q, ls, 0, false)
{
    reveal(searched); reveal(layered); reveal(none_before);
    let p = placed(ls, 0);
    assert(2 <= q[0].depth < ls.len());
    assert(new_layer(ls[0], al[0].tranche, ms));
    assert(p =~= seq![0int]);
    assert(p.take(0) =~= Seq::<int>::empty());
    assert(p.take(1) =~= p);
    assert(p.drop_last() =~= Seq::<int>::empty());
    assert(rarest(al, p.drop_last()) == 0);
    assert(rarest(al, p) == tranche_of(al, 0));
    assert(within(p, al.len() as int));
    assert(allowed(al, q[0].tranche as int, p));
    assert(led(ls[0].table_matcher_fuzz_dst, ms, Seq::<int>::empty(), ms.len() as int)) by { reveal(led); reveal(started); }
    assert(layered(ls, ms, al, 0)) by {
        assert forall|j: int| 0 <= j < ls.len() implies roomy((#[trigger] ls[j]).table_matcher_fuzz_dst, ms) by { assert(new_layer(ls[j], al[0].tranche, ms)); }
    }
    assert(none_before(ms, al, q[0], p)) by {
        assert forall|c: Seq<int>| c.len() == q[0].depth && #[trigger] allowed(al, q[0].tranche as int, c) && before(c, p) implies !all_viable(ms, c) by {
            let k = choose|k: int| 0 <= k < p.len() && k < c.len() && c.take(k) == p.take(k) && #[trigger] c[k] < p[k];
            assert(0 <= c[k]);
        }
    }
}
/// The class of every word is that of some phase
proof fn lemma_class(al: Seq<&Word>, q: Seq<SearchPhase>, w: int)
    requires level(al, q), q.len() > 0, 0 <= w < al.len()
    ensures exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).tranche == tranche_of(al, w)
{
    reveal(level);
    assert(listed(q, q[0].depth as int, tranche_of(al, w)));
    let i = choose|i: int| 0 <= i < q.len() && #[trigger] is_phase(q[i], q[0].depth as int, tranche_of(al, w));
    assert(q[i].tranche == tranche_of(al, w));
}
""")
    f = Fn(
        sig="""    requires 1 <= alive_wordlist@.len() < 0x8000_0000, old_queue@.len() > 0, level(alive_wordlist@, old_queue@), distinct(old_queue@)
    ensures sized_phases(alive_wordlist@, old_queue@, r@), forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).total_size <= (#[trigger] r@[j]).total_size""",
        rules=[most("search_queue"),
               ("vec![0; $n]", "no_counts($n)", LIB),
               ("for word in alive_wordlist.iter() { $z }", "let mut k_: usize = 0; while k_ < alive_wordlist.len() { let word = alive_wordlist[k_]; $z k_ += 1; }", EACH),
               ("$rx.iter().scan(0, |$is, &$ic| { $z Some($e) }).collect()", "{ let mut v_: Vec<u64> = Vec::new(); let mut sum_: u64 = 0; let mut k_: usize = 0; while k_ < $rx.len() { let $ic = $rx[k_]; let $is = &mut sum_; $z v_.push($e); k_ += 1; } v_ }", WRITTEN),
               ("for search_phase in search_queue.iter_mut() { $z }", "let mut k_: usize = 0; while k_ < search_queue.len() { let search_phase = &mut search_queue[k_]; $z k_ += 1; }", EACH),
               ("$rx.saturating_pow($k)", "power($rx, $k)", LIB),
               ("assert!($e);", "proof { assert($e); }", ASSERT),
               ("search_queue.retain(|$ip| $e);", "let mut k_: usize = 0; while k_ < search_queue.len() { let keep_ = { let $ip = &search_queue[k_]; $e }; if keep_ { k_ += 1; } else { search_queue.remove(k_); } }", RETAIN),
               ("search_queue.sort_by_key(|$ip| $e);", "sort_phases(&mut search_queue, Ghost(|$ip: SearchPhase| ($e) as int));", LIB)],
        attrs=ATTRS,
        start="        let ghost al = alive_wordlist@; let ghost q = old_queue@; let mut search_queue = old_queue;",
        loops=[
            Loop("""                    invariant 1 <= k_ <= q.len(), search_queue@ == q, forall|i: int| 0 <= i < k_ ==> (#[trigger] q[i]).tranche <= most_
                    decreases q.len() - k_"""),
            Loop("""                    invariant k_ <= al.len(), tranche_count@.len() == tranche_max + 1, counted(al, tranche_count@, k_ as int)
                    decreases al.len() - k_""",
                 before="                proof { assert(counted(al, tranche_count@, 0)); }",
                 start="                    let ghost cs_ = tranche_count@; proof { lemma_class(al, q, k_ as int); assert(cs_[al[k_ as int].tranche as int] <= k_); }",
                 end="                    proof { lemma_counted(al, cs_, k_ - 1, tranche_count@); }"),
            Loop("""                    invariant k_ <= tranche_count@.len(), summed(tranche_count@, v_@, k_ as int), sum_ <= k_ * 0x8000_0000
                    decreases tranche_count@.len() - k_""",
                 start="                    proof { assert(tranche_count@[k_ as int] <= al.len()); }"),
            Loop("""                    invariant k_ <= q.len(), same_phases(q, search_queue@), forall|i: int| 0 <= i < k_ ==> (#[trigger] search_queue@[i].total_size > 0) == of_class(al, search_queue@[i].tranche as int)
                    decreases q.len() - k_""",
                 start="                    let ghost t_ = search_queue@[k_ as int].tranche as int; proof { assert(q[k_ as int].tranche == t_); assert(of_class(al, t_) == (tranche_count@[t_] > 0)); }",
                 after="                let ghost s_ = search_queue@;"),
            Loop("""                    invariant k_ <= search_queue@.len(), n_ + search_queue@.len() - k_ == s_.len(), 0 <= n_, search_queue@ == s_.take(n_).filter(nonempty()) + s_.skip(n_), k_ == s_.take(n_).filter(nonempty()).len()
                    decreases search_queue@.len() - k_""",
                 before="                let ghost mut n_ = 0int; proof { assert(s_.take(0).filter(nonempty()) =~= Seq::<SearchPhase>::empty()) by { reveal(Seq::filter); } assert(s_.skip(0) =~= s_); }",
                 start="                    proof { assert(s_.take(n_ + 1) =~= s_.take(n_).push(s_[n_])); lemma_filter_push(s_.take(n_), s_[n_], nonempty()); n_ = n_ + 1; }",
                 after="                proof { assert(s_.take(n_) =~= s_); assert(search_queue@ =~= s_.filter(nonempty())); }"),
        ])
    f.part = ("let tranche_max: Tranche = $e; $z search_queue.sort_by_key($k);", "pub fn sizes_(alive_wordlist: &Vec<&Word>, old_queue: Vec<SearchPhase>) -> Vec<SearchPhase>",
              "let tranche_max: Tranche = $e; $z search_queue.sort_by_key($k); proof { lemma_sized_phases(al, q, s_, search_queue@); } search_queue")
    m.fn("next_within_deadline", f, header="impl<'word> QueryEvaluator<'word>", qual="QueryEvaluator<'word>::next_within_deadline: sizes")
    m.text("impl SearchLayer {")
    m.fn("new", Fn(sig="""    requires (matcher_count * fuzz_max) * blocks_for(states_max as int) <= usize::MAX, matcher_count * fuzz_max <= usize::MAX
    ensures r.word_index == 0, r.max_tranche == initial_tranche, r.table_matcher_fuzz_dst.size.0 == fuzz_max, r.table_matcher_fuzz_dst.size.1 == blocks_for(states_max as int), r.table_matcher_fuzz_dst.blocks@.len() == (matcher_count * fuzz_max) * blocks_for(states_max as int), no_bits(r.table_matcher_fuzz_dst.blocks@)""",
        start="        proof { usize_64(); assert(0 <= matcher_count * fuzz_max) by (nonlinear_arith); assert(0 <= (matcher_count * fuzz_max) * blocks_for(states_max as int)) by (nonlinear_arith) requires 0 <= matcher_count * fuzz_max, 0 <= blocks_for(states_max as int); lemma_zeros(((matcher_count * fuzz_max) * blocks_for(states_max as int)) as nat); }"), header="impl SearchLayer")
    m.text("}")
    UPTO = """forall|i: int| 0 <= i < k_ ==> (#[trigger] pms[i]).FIELD <= most_, 1 <= most_ <= 16384"""
    g = Fn(
        sig="""    requires 1 <= old(matchers)@.len() <= 0xffff_ffff, able(old(matchers)@, alive_wordlist@, q0@), q0@.len() > 0, agreed(old(matchers)@, alive_wordlist@, 0), alive_wordlist@.len() >= 1, sorted(alive_wordlist@), search_queue@.len() > 0, distinct(search_queue@),
        forall|i: int| 0 <= i < search_queue@.len() ==> 2 <= (#[trigger] search_queue@[i]).depth < usize::MAX && tranche_of(alive_wordlist@, 0) <= search_queue@[i].tranche
    ensures r.0@ == taken(old(matchers)@), searched(r.0@, alive_wordlist@, search_queue@, r.1@, 0, false), r.1@.len() >= 1, r.1@[0].word_index == 0""",
        rules=[("matchers.drain(..).filter_map(|$im| $e).collect()", "{ let mut v_: Vec<PhraseMatcher> = Vec::new(); while matchers.len() > 0 { let $im = matchers.remove(0); if let Some(x_) = $e { v_.push(x_); } } v_ }", WRITTEN),
               ("log_messages.push($e);", "", "messages are left out"),
               most("phrase_matchers"), most("search_queue"),
               ("(0..=$e).map(|_| { $z }).collect()", "{ let end_ = $e; let mut v_: Vec<SearchLayer> = Vec::new(); let mut k_: usize = 0; while k_ <= end_ { v_.push({ $z }); k_ += 1; } v_ }", WRITTEN),
               ("for ($ii, phrase_matcher) in phrase_matchers.iter().enumerate() { $z }", "let mut n_: usize = 0; while n_ < phrase_matchers.len() { let $ii = n_; let phrase_matcher = &phrase_matchers[n_]; n_ += 1; $z }", EACH)],
        attrs=ATTRS,
        start="        let ghost al = alive_wordlist@; let ghost pms = taken(matchers@); let ghost q = search_queue@; let ghost ms0_ = matchers@; proof { usize_64(); lemma_all_searching(ms0_, al, q0@); assert forall|i: int| 0 <= i < pms.len() implies 1 <= (#[trigger] pms[i]).states_len <= 16384 && 1 <= pms[i].fuzz_limit <= 16384 by { assert(pms[i].ok() && pms[i].tidy()); reveal(PhraseMatcher::ok); reveal(PhraseMatcher::tidy); } }",
        at=[("let mut search_layers: Vec<_>", "before", "                let ghost k = blocks_for(states_max as int); proof { assert(1 <= k <= 512); let l = pms.len() as int; let f = fuzz_max as int; assert(l * f <= 0xffff_ffff * 16384) by (nonlinear_arith) requires 1 <= l <= 0xffff_ffff, 1 <= f <= 16384; assert(0 <= l * f) by (nonlinear_arith) requires 1 <= l, 1 <= f; assert((l * f) * k <= 0xffff_ffff * 16384 * 512) by (nonlinear_arith) requires 0 <= l * f <= 0xffff_ffff * 16384, 1 <= k <= 512; }"),
            ("slice2d_mut(i).clear();", "after", "                    let ghost t1_ = search_layers@[0].table_matcher_fuzz_dst; proof { lemma_cleared(t_, t1_, pms, i as int); lemma_first_row(t1_, pms, i as int); }"),
            ],
        loops=[
            Loop("""                invariant matchers@ == ms0_.skip(v_@.len() as int), v_@.len() + matchers@.len() == ms0_.len(), v_@ == pms.take(v_@.len() as int)
                decreases matchers@.len()""", start="                proof { assert(matchers@[0] == ms0_[v_@.len() as int]); }", after="                proof { assert(pms.take(pms.len() as int) =~= pms); }"),
            Loop("""                    invariant 1 <= k_ <= pms.len(), """ + UPTO.replace("FIELD", "states_len") + """
                    decreases pms.len() - k_"""),
            Loop("""                    invariant 1 <= k_ <= pms.len(), """ + UPTO.replace("FIELD", "fuzz_limit") + """
                    decreases pms.len() - k_"""),
            Loop("""                    invariant 1 <= k_ <= q.len(), most_ < usize::MAX, forall|i: int| 0 <= i < k_ ==> (#[trigger] q[i]).depth <= most_
                    decreases q.len() - k_"""),
            Loop("""                    invariant k_ <= end_ + 1, v_@.len() == k_, forall|i: int| 0 <= i < k_ ==> new_layer(#[trigger] v_@[i], al[0].tranche, pms) && no_bits(v_@[i].table_matcher_fuzz_dst.blocks@)
                    decreases end_ + 1 - k_""",
                 end="                    proof { let l_ = v_@[k_ - 1]; lemma_roomy_new(l_.table_matcher_fuzz_dst, pms, fuzz_max as int, states_max as int); }",
                 after="                proof { lemma_none_started(v_@[0].table_matcher_fuzz_dst, pms); }"),
            Loop("""                    invariant n_ <= pms.len(), search_layers@.len() == count_, forall|i: int| 0 <= i < count_ ==> new_layer(#[trigger] search_layers@[i], al[0].tranche, pms), started(search_layers@[0].table_matcher_fuzz_dst, pms, n_ as int)
                    decreases pms.len() - n_""",
                 before="                let ghost count_ = search_layers@.len();",
                 start="                    let ghost t_ = search_layers@[0].table_matcher_fuzz_dst; proof { lemma_roomy(t_, pms, n_ as int); }",
                 end="                    proof { let t2_ = search_layers@[0].table_matcher_fuzz_dst; lemma_started(t1_, t2_, pms, i as int, choose|x: Seq<u32>| x.len() == t1_.size.1 && t2_.blocks@ == #[trigger] t1_.with_row((i, 0), x) && forall|y: int| #[trigger] isset(x, y) == (isset(t1_.row((i, 0)), y) || isset(phrase_matcher.start_states.blocks@, y))); }"),
        ])
    g.part = ("let phrase_matchers: Vec<_> = $z let initial_search_estimate = $e;", "pub fn layers_<'word>(matchers: &mut Vec<WordMatcher<'word>>, alive_wordlist: &Vec<&'word Word>, search_queue: &Vec<SearchPhase>, q0: Ghost<Seq<SearchPhase>>) -> (Vec<PhraseMatcher>, Vec<SearchLayer>)",
              "let phrase_matchers: Vec<_> = $z proof { lemma_first_layer(pms, al, q, search_layers@); } (phrase_matchers, search_layers)")
    m.fn("next_within_deadline", g, header="impl<'word> QueryEvaluator<'word>", qual="QueryEvaluator<'word>::next_within_deadline: layers")
    return m
