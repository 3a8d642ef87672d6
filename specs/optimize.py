"""The optimization of the automaton: it accepts the same strings afterwards"""
from build import Module
from rules import ITER
from extract import Fn, Loop, Item, without_nested


def module():
    m = Module("optimize", "expression.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::expression::*;
use super::automaton::*;
use super::construct::*;

/// The last state is reached by `v` from the state `i`
pub open spec fn acc(ss: Seq<State>, i: int, v: Seq<Char>) -> bool { walks(ss, 0, ss.len() as int, ss.len() - 1, i, v) }
pub open spec fn acc_same(ss: Seq<State>, tt: Seq<State>) -> bool { forall|v: Seq<Char>| #[trigger] acc(ss, 0, v) == acc(tt, 0, v) }
/// All edges lead to states, and the last one is left by word boundaries only, for itself
pub open spec fn sane(ss: Seq<State>, b: int) -> bool {
    &&& 1 <= ss.len() <= 32 * b && ss.len() <= MAX_SET_SIZE && b <= blocks_for(MAX_SET_SIZE as int)
    &&& forall|i: int| 0 <= i < ss.len() ==> state_sane(#[trigger] ss[i], ss.len() as int, b)
    &&& ss.last().char_bitset.has_sym(SPACE) && ss.last().next_state == ss.len() - 1
}
pub open spec fn state_sane(s: State, n: int, b: int) -> bool {
    s.epsilon_states.blocks@.len() == b && s.epsilon_states.size == () && s.next_state < n && (forall|j: int| #[trigger] isset(s.epsilon_states.blocks@, j) ==> j < n)
}
/// Each state includes all states that can be reached from it without a symbol
pub open spec fn transitive(ss: Seq<State>) -> bool {
    &&& forall|i: int| 0 <= i < ss.len() ==> #[trigger] eps(ss, i, i)
    &&& forall|i: int, j: int, k: int| 0 <= i < ss.len() && 0 <= j < ss.len() && #[trigger] eps(ss, i, j) && #[trigger] eps(ss, j, k) ==> eps(ss, i, k)
}
pub open spec fn alike(ss: Seq<State>, tt: Seq<State>) -> bool {
    tt.len() == ss.len() && (forall|i: int| #![trigger ss[i]] #![trigger tt[i]] 0 <= i < ss.len() ==> tt[i].char_bitset == ss[i].char_bitset && tt[i].next_state == ss[i].next_state)
}
/// The derived comparison of sets
pub fn bitset_eq(x: &BitSet1D, y: &BitSet1D) -> (r: bool)
    ensures r == (x.blocks@ == y.blocks@)
{ blocks_eq(&x.blocks, &y.blocks) }
pub fn blocks_eq(x: &[Block], y: &[Block]) -> (r: bool)
    ensures r == (x@ == y@)
{
    if x.len() != y.len() { return false; }
    let mut i: usize = 0;
    while i < x.len()
        invariant i <= x@.len() == y@.len(), forall|j: int| 0 <= j < i ==> x@[j] == y@[j]
        decreases x@.len() - i
    {
        if x[i] != y[i] { return false; }
        i += 1;
    }
    assert(x@ =~= y@);
    true
}

// ---- the transitive closure

pub open spec fn hop(ss: Seq<State>, i: int, k: int) -> bool { walks(ss, 0, ss.len() as int, k, i, Seq::empty()) }
pub open spec fn closing(ss: Seq<State>, tt: Seq<State>) -> bool {
    &&& alike(ss, tt)
    &&& forall|i: int, k: int| 0 <= i < ss.len() && #[trigger] eps(ss, i, k) ==> eps(tt, i, k)
    &&& forall|i: int, k: int| 0 <= i < ss.len() && #[trigger] eps(tt, i, k) ==> hop(ss, i, k)
}
pub proof fn lemma_hop_join(ss: Seq<State>, i: int, j: int, k: int)
    requires hop(ss, i, j), hop(ss, j, k)
    ensures hop(ss, i, k)
{
    let v = Seq::<Char>::empty();
    let n = choose|n: int| 0 <= n && #[trigger] walk(ss, 0, ss.len() as int, j, n)(i, v);
    assert(v.take(0) =~= v && v.skip(0) =~= v);
    lemma_join(ss, 0, ss.len() as int, j, 0, ss.len() as int, k, n, i, 0, v);
}
pub proof fn lemma_hop_eps(ss: Seq<State>, i: int, k: int)
    requires 0 <= i < ss.len(), eps(ss, i, k)
    ensures hop(ss, i, k)
{
    lemma_here(ss, 0, ss.len() as int, k, Seq::empty());
    lemma_eps_step(ss, 0, ss.len() as int, k, i, k, Seq::empty());
}
pub proof fn lemma_hop_self(ss: Seq<State>, i: int)
    ensures hop(ss, i, i)
{
    lemma_here(ss, 0, ss.len() as int, i, Seq::empty());
}
pub proof fn lemma_closing_walk(ss: Seq<State>, tt: Seq<State>, t: int, n: int, i: int, v: Seq<Char>)
    requires closing(ss, tt), walk(tt, 0, tt.len() as int, t, n)(i, v)
    ensures walks(ss, 0, ss.len() as int, t, i, v)
    decreases n
{
    let z = ss.len() as int;
    if n <= 0 { lemma_here(ss, 0, z, t, v); }
    else {
        assert(move_(tt, 0, z, walk(tt, 0, z, t, n - 1), i, v));
        if exists|k: int| eps(tt, i, k) && #[trigger] walk(tt, 0, z, t, n - 1)(k, v) {
            let k = choose|k: int| eps(tt, i, k) && #[trigger] walk(tt, 0, z, t, n - 1)(k, v);
            lemma_closing_walk(ss, tt, t, n - 1, k, v);
            let e = Seq::<Char>::empty();
            assert(hop(ss, i, k));
            let h = choose|h: int| 0 <= h && #[trigger] walk(ss, 0, z, k, h)(i, e);
            assert(v.take(0) =~= e && v.skip(0) =~= v);
            lemma_join(ss, 0, z, k, 0, z, t, h, i, 0, v);
        } else {
            assert(tt[i].char_bitset == ss[i].char_bitset);
            lemma_closing_walk(ss, tt, t, n - 1, tt[i].next_state as int, v.skip(1));
            lemma_char_step(ss, 0, z, t, i, v);
        }
    }
}
pub proof fn lemma_closing_back(ss: Seq<State>, tt: Seq<State>, t: int, n: int, i: int, v: Seq<Char>)
    requires closing(ss, tt), walk(ss, 0, ss.len() as int, t, n)(i, v)
    ensures walk(tt, 0, tt.len() as int, t, n)(i, v)
    decreases n
{
    let z = ss.len() as int;
    if n > 0 {
        assert(move_(ss, 0, z, walk(ss, 0, z, t, n - 1), i, v));
        if exists|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, t, n - 1)(k, v) {
            let k = choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, t, n - 1)(k, v);
            lemma_closing_back(ss, tt, t, n - 1, k, v);
            assert(eps(tt, i, k) && walk(tt, 0, z, t, n - 1)(k, v));
        } else {
            lemma_closing_back(ss, tt, t, n - 1, ss[i].next_state as int, v.skip(1));
            assert(tt[i].char_bitset == ss[i].char_bitset);
        }
        assert(move_(tt, 0, z, walk(tt, 0, z, t, n - 1), i, v));
    }
}
pub proof fn lemma_closing(ss: Seq<State>, tt: Seq<State>)
    requires closing(ss, tt)
    ensures acc_same(ss, tt)
{
    let z = ss.len() as int;
    assert forall|v: Seq<Char>| #[trigger] acc(ss, 0, v) == acc(tt, 0, v) by {
        if acc(ss, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, 0, z, z - 1, n)(0, v); lemma_closing_back(ss, tt, z - 1, n, 0, v); }
        if acc(tt, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(tt, 0, z, z - 1, n)(0, v); lemma_closing_walk(ss, tt, z - 1, n, 0, v); }
    }
}
/// Number of elements below `n`
pub open spec fn count(s: Seq<u32>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { count(s, n - 1) + (if isset(s, n - 1) { 1int } else { 0int }) }
}
pub proof fn lemma_count(s: Seq<u32>, t: Seq<u32>, n: int)
    requires subset(s, t)
    ensures count(s, n) <= count(t, n), 0 <= n ==> 0 <= count(s, n) && count(t, n) <= n, (exists|i: int| 0 <= i < n && isset(t, i) && !isset(s, i)) ==> count(s, n) < count(t, n)
    decreases n
{
    if n > 0 { lemma_count(s, t, n - 1); }
}
/// What can be reached by way of the states before `k` is included there
pub open spec fn cut(ss: Seq<State>, k: int) -> bool { forall|j: int, x: int, y: int| 0 <= j < k && #[trigger] eps(ss, j, x) && #[trigger] eps(ss, x, y) ==> eps(ss, j, y) }
/// `w` are states which can be reached from the state `i`
pub open spec fn widening(s0: Seq<State>, ss: Seq<State>, w: Seq<u32>, i: int) -> bool {
    &&& subset(ss[i].epsilon_states.blocks@, w)
    &&& forall|x: int| #[trigger] isset(w, x) ==> x < ss.len() && hop(s0, i, x)
    &&& forall|j: int, x: int| 0 <= j < i && eps(ss, j, i) && #[trigger] isset(w, x) ==> #[trigger] eps(ss, j, x)
}
pub proof fn lemma_union(s0: Seq<State>, ss: Seq<State>, b: int, i: int, q: int, w: Seq<u32>, u: Seq<u32>)
    requires sane(ss, b), closing(s0, ss), cut(ss, i), widening(s0, ss, w, i), 0 <= i < ss.len(), 0 <= q < ss.len(),
        isset(w, q) ==> (forall|x: int| #[trigger] isset(u, x) == (isset(w, x) || eps(ss, q, x))), !isset(w, q) ==> u == w,
        forall|p: int, y: int| 0 <= p < q && eps(ss, i, p) && #[trigger] eps(ss, p, y) ==> isset(w, y),
    ensures widening(s0, ss, u, i), forall|p: int, y: int| 0 <= p < q + 1 && eps(ss, i, p) && #[trigger] eps(ss, p, y) ==> isset(u, y),
{
    if isset(w, q) {
        assert(state_sane(ss[q], ss.len() as int, b));
        assert forall|x: int| #[trigger] isset(u, x) implies x < ss.len() && hop(s0, i, x) by {
            if !isset(w, x) { assert(eps(ss, q, x)); lemma_hop_join(s0, i, q, x); }
        }
        assert forall|j: int, x: int| 0 <= j < i && eps(ss, j, i) && #[trigger] isset(u, x) implies #[trigger] eps(ss, j, x) by {
            if !isset(w, x) { assert(eps(ss, j, q)); assert(eps(ss, q, x)); } else { assert(isset(w, x)); }
        }
    }
    assert forall|p: int, y: int| 0 <= p < q + 1 && eps(ss, i, p) && #[trigger] eps(ss, p, y) implies isset(u, y) by {
        if p == q { assert(isset(w, q)); }
    }
}
/// The set of the state `i` is extended
pub proof fn lemma_widened(s0: Seq<State>, ss: Seq<State>, tt: Seq<State>, b: int, i: int)
    requires sane(ss, b), closing(s0, ss), cut(ss, i), 0 <= i < ss.len(), tt.len() == ss.len(), forall|j: int| 0 <= j < ss.len() && j != i ==> #[trigger] tt[j] == ss[j],
        tt[i].char_bitset == ss[i].char_bitset, tt[i].next_state == ss[i].next_state, tt[i].epsilon_states.blocks@.len() == b, tt[i].epsilon_states.size == (),
        widening(s0, ss, tt[i].epsilon_states.blocks@, i), tt[i].epsilon_states.blocks@ != ss[i].epsilon_states.blocks@,
        forall|j: int| 0 <= j <= i ==> #[trigger] eps(ss, j, j),
    ensures sane(tt, b), closing(s0, tt), cut(tt, i), count(ss[i].epsilon_states.blocks@, ss.len() as int) < count(tt[i].epsilon_states.blocks@, ss.len() as int) <= ss.len(),
        forall|j: int| 0 <= j <= i ==> #[trigger] eps(tt, j, j),
{
    let n = ss.len() as int;
    let w = tt[i].epsilon_states.blocks@;
    let o = ss[i].epsilon_states.blocks@;
    assert(state_sane(ss[i], n, b));
    assert forall|j: int| 0 <= j < n implies state_sane(#[trigger] tt[j], n, b) by { assert(state_sane(ss[j], n, b)); }
    assert(tt.last().char_bitset == ss.last().char_bitset && tt.last().next_state == ss.last().next_state) by { if i != n - 1 { assert(tt[n - 1] == ss[n - 1]); } }
    assert forall|j: int| #![trigger s0[j]] #![trigger tt[j]] 0 <= j < n implies tt[j].char_bitset == s0[j].char_bitset && tt[j].next_state == s0[j].next_state by { assert(ss[j].char_bitset == s0[j].char_bitset); if j != i { assert(tt[j] == ss[j]); } }
    assert forall|j: int, k: int| 0 <= j < n && #[trigger] eps(s0, j, k) implies eps(tt, j, k) by { assert(eps(ss, j, k)); if j != i { assert(tt[j] == ss[j]); } }
    assert forall|j: int, k: int| 0 <= j < n && #[trigger] eps(tt, j, k) implies hop(s0, j, k) by { if j != i { assert(tt[j] == ss[j]); assert(eps(ss, j, k)); } }
    assert forall|j: int, x: int, y: int| 0 <= j < i && #[trigger] eps(tt, j, x) && #[trigger] eps(tt, x, y) implies eps(tt, j, y) by {
        assert(tt[j] == ss[j]);
        assert(eps(ss, j, x));
        assert(state_sane(ss[j], n, b));
        if x == i { assert(isset(w, y)); assert(eps(ss, j, y)); } else { assert(0 <= x < n); assert(tt[x] == ss[x]); assert(eps(ss, x, y)); assert(eps(ss, j, y)); }
    }
    assert forall|j: int| 0 <= j <= i implies #[trigger] eps(tt, j, j) by { assert(eps(ss, j, j)); if j != i { assert(tt[j] == ss[j]); } }
    if forall|x: int| 0 <= x < n && isset(w, x) ==> isset(o, x) {
        assert forall|x: int| isset(w, x) == isset(o, x) by { }
        lemma_ext(w, o);
    }
    lemma_count(o, w, n);
    lemma_count(w, w, n);
}
pub proof fn lemma_self_loop(s0: Seq<State>, ss: Seq<State>, tt: Seq<State>, b: int, i: int)
    requires sane(ss, b), closing(s0, ss), cut(ss, i), 0 <= i < ss.len(), forall|j: int| 0 <= j < i ==> #[trigger] eps(ss, j, j), linked(ss, tt, i, i), tt[i].epsilon_states.size == ()
    ensures sane(tt, b), closing(s0, tt), cut(tt, i), forall|j: int| 0 <= j <= i ==> #[trigger] eps(tt, j, j)
{
    let n = ss.len() as int;
    assert(state_sane(ss[i], n, b));
    assert forall|j: int, k: int| 0 <= j < n && #[trigger] eps(tt, j, k) implies eps(ss, j, k) || j == k by { if j != i { assert(tt[j] == ss[j]); } }
    assert forall|j: int, k: int| 0 <= j < n && #[trigger] eps(ss, j, k) implies eps(tt, j, k) by { if j != i { assert(tt[j] == ss[j]); } else { assert(eps(tt, i, k) == (eps(ss, i, k) || k == i)); } }
    assert forall|j: int| 0 <= j < n implies state_sane(#[trigger] tt[j], n, b) by {
        assert(state_sane(ss[j], n, b));
        assert forall|k: int| #[trigger] isset(tt[j].epsilon_states.blocks@, k) implies k < n by { assert(eps(tt, j, k)); if j != k { assert(eps(ss, j, k)); } }
    }
    assert(tt.last().char_bitset == ss.last().char_bitset && tt.last().next_state == ss.last().next_state) by { if i != n - 1 { assert(tt[n - 1] == ss[n - 1]); } }
    assert forall|j: int| #![trigger s0[j]] #![trigger tt[j]] 0 <= j < n implies tt[j].char_bitset == s0[j].char_bitset && tt[j].next_state == s0[j].next_state by { assert(ss[j].char_bitset == s0[j].char_bitset); if j != i { assert(tt[j] == ss[j]); } }
    assert forall|j: int, k: int| 0 <= j < n && #[trigger] eps(s0, j, k) implies eps(tt, j, k) by { assert(eps(ss, j, k)); }
    assert forall|j: int, k: int| 0 <= j < n && #[trigger] eps(tt, j, k) implies hop(s0, j, k) by { if j == k { lemma_hop_self(s0, j); } else { assert(eps(ss, j, k)); } }
    assert forall|j: int, x: int, y: int| 0 <= j < i && #[trigger] eps(tt, j, x) && #[trigger] eps(tt, x, y) implies eps(tt, j, y) by {
        assert(state_sane(tt[j], n, b));
        assert(tt[j] == ss[j]);
        if x != y { assert(eps(ss, x, y)); assert(eps(ss, j, x)); assert(eps(ss, j, y)); }
    }
    assert forall|j: int| 0 <= j <= i implies #[trigger] eps(tt, j, j) by { if j != i { assert(eps(ss, j, j)); } else { assert(eps(tt, i, i) == (eps(ss, i, i) || i == i)); } }
}
pub proof fn lemma_sane_any(s0: Seq<State>, tt: Seq<State>, b: int)
    requires sane(s0, b), sane(tt, b), tt.len() == s0.len()
    ensures forall|c: int| #[trigger] sane(s0, c) ==> sane(tt, c)
{
    assert forall|c: int| #[trigger] sane(s0, c) implies sane(tt, c) by { assert(state_sane(s0[0], s0.len() as int, b)); assert(state_sane(s0[0], s0.len() as int, c)); }
}

// ---- removal of redundant states

/// The state `i` leads nowhere but to itself and to what `k` leads to
pub open spec fn single(ss: Seq<State>, i: int, k: int) -> bool {
    0 < i < k < ss.len() && ss[i].char_bitset == CharBitset::EMPTY && (forall|x: int| #[trigger] eps(ss, k, x) == (eps(ss, i, x) && x != i))
}
/// Number of the states before `i` that are removed
pub open spec fn gone(f: Seq<Option<usize>>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { gone(f, i - 1) + (if f[i - 1] is None { 1int } else { 0int }) }
}
pub open spec fn below(d: Seq<usize>, k: int, i: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { below(d, k - 1, i) + (if d[k - 1] < i { 1int } else { 0int }) }
}
pub proof fn lemma_gone(f: Seq<Option<usize>>, i: int, j: int)
    requires 0 <= i <= j
    ensures 0 <= gone(f, i) <= i, gone(f, i) <= gone(f, j) <= gone(f, i) + j - i, i < j && f[i] is Some ==> gone(f, j) <= gone(f, i) + j - i - 1
    decreases j
{
    if i < j { lemma_gone(f, i, j - 1); } else if i > 0 { lemma_gone(f, i - 1, i - 1); }
}
pub proof fn lemma_gone_same(f: Seq<Option<usize>>, g: Seq<Option<usize>>, i: int)
    requires forall|j: int| 0 <= j < i ==> f[j] == g[j]
    ensures gone(f, i) == gone(g, i)
    decreases i
{
    if i > 0 { lemma_gone_same(f, g, i - 1); }
}
pub proof fn lemma_below_push(d: Seq<usize>, k: int, y: usize, i: int)
    requires 0 <= k <= d.len()
    ensures below(d.push(y), k, i) == below(d, k, i)
    decreases k
{
    if k > 0 { lemma_below_push(d, k - 1, y, i); }
}
pub proof fn lemma_below(d: Seq<usize>, k: int, i: int)
    ensures 0 <= below(d, k, i), 0 <= k ==> below(d, k, i) <= k
    decreases k
{
    if k > 0 { lemma_below(d, k - 1, i); }
}
/// The removed states: those before `k`
pub open spec fn dropped(ss: Seq<State>, m: Seq<usize>, f: Seq<Option<usize>>, d: Seq<usize>, k: int) -> bool {
    &&& m.len() == ss.len() && f.len() == ss.len() && d.len() == gone(f, k)
    &&& forall|j: int| 0 <= j < ss.len() ==> (if f[j] is None { j < k && single(ss, j, m[j] as int) } else { f[j] == Some(j as usize) && m[j] == j })
    &&& forall|x: int| 0 <= x <= ss.len() ==> #[trigger] below(d, d.len() as int, x) == gone(f, if x < k { x } else { k })
}
pub proof fn lemma_dropped(ss: Seq<State>, m: Seq<usize>, f: Seq<Option<usize>>, d: Seq<usize>, i: int)
    requires dropped(ss, m, f, d, i), 0 <= i < ss.len() <= MAX_SET_SIZE, f[i] is Some
    ensures dropped(ss, m, f, d, i + 1), forall|k: int| #[trigger] single(ss, i, k) ==> dropped(ss, m.update(i, k as usize), f.update(i, None), d.push(i as usize), i + 1)
{
    assert forall|k: int| #[trigger] single(ss, i, k) implies dropped(ss, m.update(i, k as usize), f.update(i, None), d.push(i as usize), i + 1) by {
        let g = f.update(i, None);
        let e = d.push(i as usize);
        lemma_gone_same(f, g, i);
        assert forall|x: int| 0 <= x <= ss.len() implies #[trigger] below(e, e.len() as int, x) == gone(g, if x < i + 1 { x } else { i + 1 }) by {
            lemma_below_push(d, d.len() as int, i as usize, x);
            if x <= i { lemma_gone_same(f, g, x); }
            assert(below(d, d.len() as int, x) == gone(f, if x < i { x } else { i }));
        }
    }
    assert forall|x: int| 0 <= x <= ss.len() implies #[trigger] below(d, d.len() as int, x) == gone(f, if x < i + 1 { x } else { i + 1 }) by { }
}
/// The new index of the state `j`
pub open spec fn slot(f: Seq<Option<usize>>, m: Seq<usize>, j: int) -> int
    decreases f.len() - j
{
    if 0 <= j < f.len() && f[j] is None && j < m[j] < f.len() { slot(f, m, m[j] as int) } else { j - gone(f, j) }
}
pub proof fn lemma_slot(ss: Seq<State>, f: Seq<Option<usize>>, m: Seq<usize>, d: Seq<usize>, j: int)
    requires dropped(ss, m, f, d, ss.len() as int), 0 <= j < ss.len()
    ensures 0 <= slot(f, m, j) < ss.len() - d.len(), d.len() <= ss.len()
    decreases ss.len() - j
{
    lemma_gone(f, j, ss.len() as int);
    if f[j] is None { assert(single(ss, j, m[j] as int)); lemma_slot(ss, f, m, d, m[j] as int); }
}
/// Every index is used again
pub proof fn lemma_used(f: Seq<Option<usize>>, k: int, q: int) -> (j: int)
    requires 0 <= q < k - gone(f, k)
    ensures 0 <= j < k, f[j] is Some, j - gone(f, j) == q
    decreases k
{
    if k <= 0 { lemma_gone(f, 0, 0); 0 }
    else if f[k - 1] is Some && q == k - 1 - gone(f, k - 1) { k - 1 }
    else { lemma_used(f, k - 1, q) }
}
pub open spec fn mapped(m: Seq<usize>, s: Seq<u32>, x: int) -> bool { exists|k: int| #[trigger] isset(s, k) && m[k] == x }
pub open spec fn moved(s: State, m: Seq<usize>, t: State, b: int) -> bool {
    &&& t.char_bitset == s.char_bitset && t.next_state == m[s.next_state as int] && t.epsilon_states.blocks@.len() == b
    &&& forall|x: int| #[trigger] isset(t.epsilon_states.blocks@, x) == mapped(m, s.epsilon_states.blocks@, x)
}
pub open spec fn pruned(ss: Seq<State>, tt: Seq<State>, f: Seq<Option<usize>>, m: Seq<usize>, d: Seq<usize>, r: Seq<usize>, b: int) -> bool {
    &&& dropped(ss, m, f, d, ss.len() as int) && r.len() == ss.len()
    &&& forall|j: int| 0 <= j < ss.len() ==> #[trigger] r[j] == slot(f, m, j)
    &&& tt.len() == ss.len() - gone(f, ss.len() as int)
    &&& forall|j: int| 0 <= j < ss.len() && f[j] is Some ==> moved(#[trigger] ss[j], r, tt[j - gone(f, j)], b)
}
pub open spec fn reflexive(ss: Seq<State>) -> bool { forall|i: int| 0 <= i < ss.len() ==> #[trigger] eps(ss, i, i) }
pub proof fn lemma_pruned_to(ss: Seq<State>, tt: Seq<State>, f: Seq<Option<usize>>, m: Seq<usize>, d: Seq<usize>, r: Seq<usize>, b: int, c: int, n: int, i: int, v: Seq<Char>)
    requires pruned(ss, tt, f, m, d, r, b), sane(ss, c), 0 <= i < ss.len(), walk(ss, 0, ss.len() as int, ss.len() - 1, n)(i, v)
    ensures walks(tt, 0, tt.len() as int, tt.len() - 1, r[i] as int, v)
    decreases n, ss.len() - i
{
    let z = ss.len() as int;
    let y = tt.len() as int;
    lemma_slot(ss, f, m, d, i);
    assert(r[i] == slot(f, m, i));
    if n <= 0 {
        assert(r[z - 1] == slot(f, m, z - 1));
        if f[z - 1] is None { assert(single(ss, z - 1, m[z - 1] as int)); }
        lemma_here(tt, 0, y, y - 1, v);
    } else {
        assert(move_(ss, 0, z, walk(ss, 0, z, z - 1, n - 1), i, v));
        assert(state_sane(ss[i], z, c));
        if f[i] is Some {
            let q = r[i] as int;
            assert(moved(ss[i], r, tt[q], b));
            if exists|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, z - 1, n - 1)(k, v) {
                let k = choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, z - 1, n - 1)(k, v);
                lemma_pruned_to(ss, tt, f, m, d, r, b, c, n - 1, k, v);
                assert(isset(ss[i].epsilon_states.blocks@, k));
                assert(mapped(r, ss[i].epsilon_states.blocks@, r[k] as int));
                assert(eps(tt, q, r[k] as int));
                lemma_eps_step(tt, 0, y, y - 1, q, r[k] as int, v);
            } else {
                lemma_pruned_to(ss, tt, f, m, d, r, b, c, n - 1, ss[i].next_state as int, v.skip(1));
                lemma_char_step(tt, 0, y, y - 1, q, v);
            }
        } else {
            let i2 = m[i] as int;
            assert(single(ss, i, i2));
            assert(r[i2] == slot(f, m, i2));
            lemma_consts();
            let k = choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, z - 1, n - 1)(k, v);
            assert(eps(ss, i, k));
            if k == i { lemma_pruned_to(ss, tt, f, m, d, r, b, c, n - 1, i, v); }
            else {
                assert(eps(ss, i2, k) && walk(ss, 0, z, z - 1, n - 1)(k, v));
                assert(move_(ss, 0, z, walk(ss, 0, z, z - 1, n - 1), i2, v));
                lemma_pruned_to(ss, tt, f, m, d, r, b, c, n, i2, v);
            }
        }
    }
}
/// The state that is kept in place of `k`
pub proof fn lemma_kept(ss: Seq<State>, tt: Seq<State>, f: Seq<Option<usize>>, m: Seq<usize>, d: Seq<usize>, r: Seq<usize>, b: int, k: int, v: Seq<Char>) -> (j: int)
    requires pruned(ss, tt, f, m, d, r, b), reflexive(ss), 0 <= k < ss.len()
    ensures 0 <= j < ss.len(), f[j] is Some, r[j] == r[k], walks(ss, 0, ss.len() as int, ss.len() - 1, j, v) ==> walks(ss, 0, ss.len() as int, ss.len() - 1, k, v)
    decreases ss.len() - k
{
    assert(r[k] == slot(f, m, k));
    if f[k] is Some { k }
    else {
        let k2 = m[k] as int;
        assert(single(ss, k, k2));
        assert(r[k2] == slot(f, m, k2));
        let j = lemma_kept(ss, tt, f, m, d, r, b, k2, v);
        assert(eps(ss, k2, k2));
        assert(eps(ss, k, k2));
        if walks(ss, 0, ss.len() as int, ss.len() - 1, j, v) { lemma_eps_step(ss, 0, ss.len() as int, ss.len() - 1, k, k2, v); }
        j
    }
}
pub proof fn lemma_slots_differ(f: Seq<Option<usize>>, i: int, j: int)
    requires 0 <= i < f.len(), 0 <= j < f.len(), f[i] is Some, f[j] is Some, i - gone(f, i) == j - gone(f, j)
    ensures i == j
{
    if i < j { lemma_gone(f, i, j); }
    if j < i { lemma_gone(f, j, i); }
}
pub proof fn lemma_pruned_from(ss: Seq<State>, tt: Seq<State>, f: Seq<Option<usize>>, m: Seq<usize>, d: Seq<usize>, r: Seq<usize>, b: int, c: int, n: int, i: int, v: Seq<Char>)
    requires pruned(ss, tt, f, m, d, r, b), sane(ss, c), reflexive(ss), 0 <= i < ss.len(), f[i] is Some, walk(tt, 0, tt.len() as int, tt.len() - 1, n)(r[i] as int, v)
    ensures walks(ss, 0, ss.len() as int, ss.len() - 1, i, v)
    decreases n
{
    let z = ss.len() as int;
    let y = tt.len() as int;
    let q = r[i] as int;
    assert(r[i] == slot(f, m, i));
    lemma_slot(ss, f, m, d, i);
    if n <= 0 {
        if f[z - 1] is None { assert(single(ss, z - 1, m[z - 1] as int)); }
        assert(z - 1 - gone(f, z - 1) == y - 1);
        lemma_slots_differ(f, i, z - 1);
        lemma_here(ss, 0, z, z - 1, v);
    } else {
        assert(move_(tt, 0, y, walk(tt, 0, y, y - 1, n - 1), q, v));
        assert(moved(ss[i], r, tt[q], b));
        assert(state_sane(ss[i], z, c));
        if exists|k: int| eps(tt, q, k) && #[trigger] walk(tt, 0, y, y - 1, n - 1)(k, v) {
            let x = choose|k: int| eps(tt, q, k) && #[trigger] walk(tt, 0, y, y - 1, n - 1)(k, v);
            assert(mapped(r, ss[i].epsilon_states.blocks@, x));
            let k = choose|k: int| #[trigger] isset(ss[i].epsilon_states.blocks@, k) && r[k] == x;
            let j = lemma_kept(ss, tt, f, m, d, r, b, k, v);
            lemma_pruned_from(ss, tt, f, m, d, r, b, c, n - 1, j, v);
            assert(eps(ss, i, k));
            lemma_eps_step(ss, 0, z, z - 1, i, k, v);
        } else {
            let k = ss[i].next_state as int;
            let j = lemma_kept(ss, tt, f, m, d, r, b, k, v.skip(1));
            lemma_pruned_from(ss, tt, f, m, d, r, b, c, n - 1, j, v.skip(1));
            lemma_char_step(ss, 0, z, z - 1, i, v);
        }
    }
}
pub open spec fn same_states(ss: Seq<State>, tt: Seq<State>) -> bool {
    alike(ss, tt) && (forall|i: int, x: int| 0 <= i < ss.len() ==> #[trigger] eps(tt, i, x) == eps(ss, i, x))
}
pub proof fn lemma_pruned(ss: Seq<State>, tt: Seq<State>, f: Seq<Option<usize>>, m: Seq<usize>, d: Seq<usize>, r: Seq<usize>, b: int, c: int)
    requires pruned(ss, tt, f, m, d, r, b), sane(ss, c), reflexive(ss), b == blocks_for(tt.len() as int)
    ensures acc_same(ss, tt), sane(tt, b), tt.len() <= ss.len(), tt.len() == ss.len() ==> same_states(ss, tt)
{
    let z = ss.len() as int;
    let y = tt.len() as int;
    if f[z - 1] is None { assert(single(ss, z - 1, m[z - 1] as int)); }
    if f[0] is None { assert(single(ss, 0, m[0] as int)); }
    lemma_gone(f, 0, z);
    lemma_gone(f, z - 1, z);
    assert(r[0] == slot(f, m, 0) && r[z - 1] == slot(f, m, z - 1));
    assert forall|v: Seq<Char>| #[trigger] acc(ss, 0, v) == acc(tt, 0, v) by {
        if acc(ss, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, 0, z, z - 1, n)(0, v); lemma_pruned_to(ss, tt, f, m, d, r, b, c, n, 0, v); }
        if acc(tt, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(tt, 0, y, y - 1, n)(0, v); lemma_pruned_from(ss, tt, f, m, d, r, b, c, n, 0, v); }
    }
    assert forall|q: int| 0 <= q < y implies state_sane(#[trigger] tt[q], y, b) by {
        let j = lemma_used(f, z, q);
        assert(moved(ss[j], r, tt[q], b));
        assert(state_sane(ss[j], z, c));
        lemma_slot(ss, f, m, d, ss[j].next_state as int);
        assert forall|x: int| #[trigger] isset(tt[q].epsilon_states.blocks@, x) implies x < y by {
            let k = choose|k: int| #[trigger] isset(ss[j].epsilon_states.blocks@, k) && r[k] == x;
            lemma_slot(ss, f, m, d, k);
        }
    }
    assert(moved(ss[z - 1], r, tt[y - 1], b));
    if y == z {
        assert forall|j: int| 0 <= j < z implies f[j] is Some && gone(f, j) == 0 && #[trigger] r[j] == j by { lemma_gone(f, j, z); lemma_gone(f, j + 1, z); assert(r[j] == slot(f, m, j)); }
        assert forall|j: int| 0 <= j < z implies #[trigger] moved(ss[j], r, tt[j], b) by { assert(r[j] == j); }
        assert forall|j: int| #![trigger ss[j]] #![trigger tt[j]] 0 <= j < z implies tt[j].char_bitset == ss[j].char_bitset && tt[j].next_state == ss[j].next_state by { assert(moved(ss[j], r, tt[j], b)); assert(state_sane(ss[j], z, c)); }
        assert forall|i: int, x: int| 0 <= i < z implies #[trigger] eps(tt, i, x) == eps(ss, i, x) by {
            assert(moved(ss[i], r, tt[i], b));
            assert(state_sane(ss[i], z, c));
            if eps(ss, i, x) { assert(isset(ss[i].epsilon_states.blocks@, x) && r[x] == x); }
            if eps(tt, i, x) { let k = choose|k: int| #[trigger] isset(ss[i].epsilon_states.blocks@, k) && r[k] == x; }
        }
    }
}
pub fn indexes(n: usize) -> (r: Vec<usize>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == i
{
    let mut v: Vec<usize> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == j
        decreases n - i
    { v.push(i); i += 1; }
    v
}
pub fn some_indexes(n: usize) -> (r: Vec<Option<usize>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == Some(i as usize)
{
    let mut v: Vec<Option<usize>> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == Some(j as usize)
        decreases n - i
    { v.push(Some(i)); i += 1; }
    v
}
pub proof fn lemma_gone_none(f: Seq<Option<usize>>, i: int)
    requires forall|j: int| 0 <= j < f.len() ==> f[j] is Some, i <= f.len()
    ensures gone(f, i) == 0
    decreases i
{
    if i > 0 { lemma_gone_none(f, i - 1); }
}

// ---- collapsing of pairs of states

/// The state `c` is reached by way of `e` only, and everything that leads to it leads to `e` as well
pub open spec fn pair(ss: Seq<State>, e: int, c: int) -> bool {
    &&& 0 <= e < ss.len() && 0 < c < ss.len()
    &&& ss[e].char_bitset == CharBitset::EMPTY
    &&& ss[c].next_state != e && ss[c].next_state != c
    &&& forall|x: int| #[trigger] eps(ss, c, x) ==> x == c
    &&& eps(ss, e, c) && eps(ss, e, ss[c].next_state as int)
    &&& forall|i: int| 0 <= i < ss.len() ==> apart(ss, e, c, #[trigger] ss[i], i)
}
pub open spec fn apart(ss: Seq<State>, e: int, c: int, s: State, i: int) -> bool { s.next_state != c && (i == c || !isset(s.epsilon_states.blocks@, c) || isset(s.epsilon_states.blocks@, e)) }
pub open spec fn shift(c: int, i: int) -> int { if i > c { i - 1 } else { i } }
/// The new index of the state `i`
pub open spec fn remapped(e: int, c: int, i: int) -> int { if i == c { shift(c, e) } else { shift(c, i) } }
pub open spec fn remapped_set(e: int, c: int, s: Seq<u32>, x: int) -> bool { exists|k: int| #[trigger] isset(s, k) && remapped(e, c, k) == x }
pub open spec fn changed(s: State, e: int, c: int, t: State, b: int) -> bool {
    &&& t.char_bitset == s.char_bitset && t.next_state == remapped(e, c, s.next_state as int) && t.epsilon_states.blocks@.len() == b
    &&& forall|x: int| #[trigger] isset(t.epsilon_states.blocks@, x) == remapped_set(e, c, s.epsilon_states.blocks@, x)
}
/// The state `e` takes over the symbols of `c`
pub open spec fn merged(ss: Seq<State>, e: int, c: int, i: int) -> State {
    if i == e { State { char_bitset: ss[c].char_bitset, next_state: ss[c].next_state, ..ss[e] } } else { ss[i] }
}
pub open spec fn collapsed(ss: Seq<State>, tt: Seq<State>, e: int, c: int, b: int) -> bool {
    tt.len() == ss.len() - 1 && (forall|i: int| 0 <= i < ss.len() && i != c ==> changed(#[trigger] merged(ss, e, c, i), e, c, tt[shift(c, i)], b))
}
pub proof fn lemma_pair(ss: Seq<State>, e: int, c: int, b: int)
    requires sane(ss, b), pair(ss, e, c)
    ensures e != c, c < ss.len() - 1, e < ss.len() - 1, state_sane(ss[c], ss.len() as int, b), state_sane(ss[e], ss.len() as int, b)
{
    let n = ss.len() as int;
    assert(apart(ss, e, c, ss[n - 1], n - 1));
    lemma_consts();
    if e == c { assert(eps(ss, c, ss[c].next_state as int)); }
}
pub proof fn lemma_collapsed_to(ss: Seq<State>, tt: Seq<State>, e: int, c: int, b: int, n: int, i: int, v: Seq<Char>)
    requires sane(ss, b), pair(ss, e, c), collapsed(ss, tt, e, c, b), 0 <= i < ss.len(), walk(ss, 0, ss.len() as int, ss.len() - 1, n)(i, v)
    ensures walks(tt, 0, tt.len() as int, tt.len() - 1, remapped(e, c, i), v)
    decreases n
{
    let z = ss.len() as int;
    let y = tt.len() as int;
    let q = remapped(e, c, i);
    lemma_pair(ss, e, c, b);
    if n <= 0 { lemma_here(tt, 0, y, y - 1, v); }
    else {
        assert(move_(ss, 0, z, walk(ss, 0, z, z - 1, n - 1), i, v));
        assert(state_sane(ss[i], z, b));
        let s = merged(ss, e, c, if i == c { e } else { i });
        assert(changed(s, e, c, tt[q], b));
        if exists|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, z - 1, n - 1)(k, v) {
            let k = choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, z - 1, n - 1)(k, v);
            assert(isset(ss[i].epsilon_states.blocks@, k));
            lemma_collapsed_to(ss, tt, e, c, b, n - 1, k, v);
            if i != c {
                assert(remapped_set(e, c, s.epsilon_states.blocks@, remapped(e, c, k)));
                assert(eps(tt, q, remapped(e, c, k)));
                lemma_eps_step(tt, 0, y, y - 1, q, remapped(e, c, k), v);
            } else { assert(eps(ss, c, k)); }
        } else {
            lemma_consts();
            lemma_collapsed_to(ss, tt, e, c, b, n - 1, ss[i].next_state as int, v.skip(1));
            lemma_char_step(tt, 0, y, y - 1, q, v);
        }
    }
}
pub proof fn lemma_collapsed_from(ss: Seq<State>, tt: Seq<State>, e: int, c: int, b: int, n: int, i: int, v: Seq<Char>)
    requires sane(ss, b), pair(ss, e, c), collapsed(ss, tt, e, c, b), 0 <= i < ss.len(), i != c, walk(tt, 0, tt.len() as int, tt.len() - 1, n)(remapped(e, c, i), v)
    ensures walks(ss, 0, ss.len() as int, ss.len() - 1, i, v)
    decreases n
{
    let z = ss.len() as int;
    let y = tt.len() as int;
    let q = remapped(e, c, i);
    lemma_pair(ss, e, c, b);
    if n <= 0 { lemma_here(ss, 0, z, z - 1, v); }
    else {
        assert(move_(tt, 0, y, walk(tt, 0, y, y - 1, n - 1), q, v));
        assert(state_sane(ss[i], z, b));
        assert(apart(ss, e, c, ss[i], i));
        let s = merged(ss, e, c, i);
        assert(changed(s, e, c, tt[q], b));
        if exists|k: int| eps(tt, q, k) && #[trigger] walk(tt, 0, y, y - 1, n - 1)(k, v) {
            let x = choose|k: int| eps(tt, q, k) && #[trigger] walk(tt, 0, y, y - 1, n - 1)(k, v);
            assert(isset(tt[q].epsilon_states.blocks@, x));
            let k = choose|k: int| #[trigger] isset(s.epsilon_states.blocks@, k) && remapped(e, c, k) == x;
            let k2 = if k == c { e } else { k };
            assert(isset(ss[i].epsilon_states.blocks@, k));
            assert(eps(ss, i, k2));
            lemma_collapsed_from(ss, tt, e, c, b, n - 1, k2, v);
            lemma_eps_step(ss, 0, z, z - 1, i, k2, v);
        } else {
            let w = v.skip(1);
            if i == e {
                assert(apart(ss, e, c, ss[c], c));
                lemma_collapsed_from(ss, tt, e, c, b, n - 1, ss[c].next_state as int, w);
                lemma_char_step(ss, 0, z, z - 1, c, v);
                lemma_eps_step(ss, 0, z, z - 1, e, c, v);
            } else {
                lemma_collapsed_from(ss, tt, e, c, b, n - 1, ss[i].next_state as int, w);
                lemma_char_step(ss, 0, z, z - 1, i, v);
            }
        }
    }
}
pub proof fn lemma_collapsed(ss: Seq<State>, tt: Seq<State>, e: int, c: int, b: int)
    requires sane(ss, b), pair(ss, e, c), collapsed(ss, tt, e, c, b)
    ensures acc_same(ss, tt), sane(tt, b)
{
    let z = ss.len() as int;
    let y = tt.len() as int;
    lemma_pair(ss, e, c, b);
    assert forall|v: Seq<Char>| #[trigger] acc(ss, 0, v) == acc(tt, 0, v) by {
        if acc(ss, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, 0, z, z - 1, n)(0, v); lemma_collapsed_to(ss, tt, e, c, b, n, 0, v); }
        if acc(tt, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(tt, 0, y, y - 1, n)(0, v); lemma_collapsed_from(ss, tt, e, c, b, n, 0, v); }
    }
    assert forall|q: int| 0 <= q < y implies state_sane(#[trigger] tt[q], y, b) by {
        let i = if q < c { q } else { q + 1 };
        assert(shift(c, i) == q);
        assert(changed(merged(ss, e, c, i), e, c, tt[q], b));
        assert(state_sane(ss[i], z, b));
        assert(apart(ss, e, c, ss[i], i));
        assert forall|x: int| #[trigger] isset(tt[q].epsilon_states.blocks@, x) implies x < y by {
            let k = choose|k: int| #[trigger] isset(ss[i].epsilon_states.blocks@, k) && remapped(e, c, k) == x;
        }
    }
    assert(changed(merged(ss, e, c, z - 1), e, c, tt[y - 1], b));
}
/// Comparison of numbers
pub fn compare(x: usize, y: usize) -> (r: std::cmp::Ordering)
    ensures r == (if x < y { std::cmp::Ordering::Less } else if x == y { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
{ if x < y { std::cmp::Ordering::Less } else if x == y { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }

// ---- all of it

pub proof fn lemma_same_states(ss: Seq<State>, tt: Seq<State>)
    requires same_states(ss, tt)
    ensures acc_same(ss, tt), transitive(ss) ==> transitive(tt)
{
    assert forall|i: int, k: int| 0 <= i < ss.len() && #[trigger] eps(tt, i, k) implies hop(ss, i, k) by { assert(eps(ss, i, k)); lemma_hop_eps(ss, i, k); }
    lemma_closing(ss, tt);
    if transitive(ss) {
        assert forall|i: int| 0 <= i < tt.len() implies #[trigger] eps(tt, i, i) by { assert(eps(ss, i, i)); }
        assert forall|i: int, j: int, k: int| 0 <= i < tt.len() && 0 <= j < tt.len() && #[trigger] eps(tt, i, j) && #[trigger] eps(tt, j, k) implies eps(tt, i, k) by { assert(eps(ss, i, j)); assert(eps(ss, j, k)); assert(eps(ss, i, k)); }
    }
}
""")
    opt = m.src.fn("optimize_states", "impl Expression")
    nested = lambda name, outer=opt: m.src.nested(outer, name)

    def add(name, f, outer=opt):
        item = nested(name, outer)
        t = without_nested(item.core)
        if t != item.core:
            m.log.append((f"optimize::{name}", "nested functions", "", 1, "functions defined inside of it are extracted on their own"))
        it = Item("fn", name, item.header, t, [], 0)
        it.core, it.attrs = t, []
        m.add_fn(it, f, "optimize_states::" + name, pre="")

    SET = "*old(states) == *old(states)"
    add("epsilon_transitive_closure", Fn(sig="""    requires exists|b: int| #[trigger] sane(old(states)@, b)
    ensures final(states)@.len() == old(states)@.len(), acc_same(old(states)@, final(states)@), transitive(final(states)@), forall|b: int| #[trigger] sane(old(states)@, b) ==> sane(final(states)@, b)""",
        rules=[("states[i].epsilon_states_bitset() == bs.reborrow()", "blocks_eq(states[i].epsilon_states_bitset().blocks, bs.reborrow().blocks)", "the derived comparison is written out")],
        start="""            let ghost s0 = states@; let ghost b = choose|b: int| #[trigger] sane(s0, b); let ghost n = s0.len() as int;
            proof {
                assert forall|i: int, k: int| 0 <= i < n && #[trigger] eps(s0, i, k) implies hop(s0, i, k) by { lemma_hop_eps(s0, i, k); }
            }""",
        loops=[Loop("""                invariant sane(s0, b), n == s0.len(), states_len == n, old(states)@ == s0, final(states)@ == final(old(states))@, sane(states@, b), closing(s0, states@),
                    forall|j: int| 0 <= j < i ==> #[trigger] eps(states@, j, j), cut(states@, i as int),""",
                    after="            proof { lemma_closing(s0, states@); lemma_sane_any(s0, states@, b); }"),
               Loop("""                invariant sane(s0, b), n == s0.len(), states_len == n, i < n, old(states)@ == s0, final(states)@ == final(old(states))@, sane(states@, b), closing(s0, states@),
                    forall|j: int| 0 <= j <= i ==> #[trigger] eps(states@, j, j), cut(states@, i as int),
                ensures cut(states@, i + 1)
                decreases n - count(states@[i as int].epsilon_states.blocks@, n)""",
                before="                proof { lemma_self_loop(s0, si, states@, b, i as int); }",
                start="                    let ghost s1 = states@; proof { assert(state_sane(s1[i as int], n, b)); }",
                end="""                    proof { lemma_widened(s0, s1, states@, b, i as int); }"""),
               Loop("""                    invariant sane(s0, b), n == s0.len(), states@ == s1, i < n, sane(s1, b), closing(s0, s1), final(bs.blocks)@ == end_, bs.blocks@.len() == b, cut(s1, i as int), k_i2 <= n,
                        widening(s0, s1, bs.blocks@, i as int),
                        forall|q: int, y: int| 0 <= q < k_i2 && eps(s1, i as int, q) && #[trigger] eps(s1, q, y) ==> isset(bs.blocks@, y),
                    decreases n - k_i2""",
                before="""                    let ghost end_ = final(bs.blocks)@; proof { assert forall|x: int| #[trigger] isset(bs.blocks@, x) implies x < n && hop(s0, i as int, x) by { assert(eps(s1, i as int, x)); }
                        assert forall|j: int, x: int| 0 <= j < i && eps(s1, j, i as int) && #[trigger] isset(bs.blocks@, x) implies #[trigger] eps(s1, j, x) by { assert(eps(s1, i as int, x)); } }""",
                start="                        let ghost b1 = bs.blocks@; proof { assert(state_sane(s1[k_i2 as int], n, b)); }",
                end="""                        proof { lemma_union(s0, s1, b, i as int, i2 as int, b1, bs.blocks@); }""")],
        at=[("for i in 0..states_len {", "after", "                let ghost si = states@;")]))
    # -- begin prune
    add("prune_epsilon_pairs", Fn(sig="""    requires exists|b: int| #[trigger] sane(old(states)@, b), reflexive(old(states)@)
    ensures acc_same(old(states)@, final(states)@), sane(final(states)@, blocks_for(final(states)@.len() as int)), final(states)@.len() <= old(states)@.len(),
        final(states)@.len() == old(states)@.len() ==> same_states(old(states)@, final(states)@)""",
        rules=[("(0..$n).collect()", "indexes($n)", ITER), ("(0..$n).map(Some).collect()", "some_indexes($n)", ITER),
               ("$rx.iter().filter(|&$iy| $e).count()", "{ let mut count_: usize = 0; let mut j_: usize = 0; while j_ < $rx.len() { let $iy = &$rx[j_]; j_ += 1; if $e { count_ += 1; } } count_ }", ITER),
               ("for $ii in (0..$n).rev() {", "let mut k_$ii: usize = $n; while k_$ii > 0 { k_$ii -= 1; let $ii = k_$ii;", ITER),
               ("$rx.iter().for_each(|&$iy| $e)", "{ let mut j_: usize = 0; while j_ < $rx.len() { let $iy = $rx[j_]; j_ += 1; $e; } }", ITER),
               ("*states = $rx.iter().filter_map(|&$iu| { $iu.map(|$iv| { $z }) }).collect();", "{ let mut out_: Vec<State> = Vec::new(); let mut j_: usize = 0; while j_ < $rx.len() { let $iu = $rx[j_]; j_ += 1; if let Some($iv) = $iu { let new_ = { $z }; out_.push(new_); } } *states = out_; }", ITER),
               ("similar_states == state2.epsilon_states", "bitset_eq(&similar_states, &state2.epsilon_states)", "the derived comparison is written out")],
        start="            let ghost s0 = states@; let ghost c = choose|b: int| #[trigger] sane(s0, b); let ghost n = s0.len() as int;",
        loops=[Loop("""                invariant sane(s0, c), n == s0.len(), states_len == n, states@ == s0, k_i <= n, dropped(s0, state_map@, state_map_from@, deleted@, k_i as int)
                decreases n - k_i""",
                    before="            proof { lemma_gone_none(state_map_from@, 0); assert(dropped(s0, state_map@, state_map_from@, deleted@, 0)); }",
                    start="                proof { assert(state_sane(s0[k_i as int], n, c)); lemma_dropped(s0, state_map@, state_map_from@, deleted@, k_i as int); }",
                    after="            let ghost m0 = state_map@; let ghost f0 = state_map_from@; let ghost d0 = deleted@;"),
               Loop("""                    invariant_except_break state_map@ == g_map, state_map_from@ == g_from, deleted@ == g_del
                    invariant sane(s0, c), n == s0.len(), states@ == s0, 0 < i < n, k_i2 <= n, dropped(s0, g_map, g_from, g_del, i + 1), g_map.len() == n, g_from.len() == n, s0[i as int].char_bitset == CharBitset::EMPTY,
                        forall|x: int| #[trigger] isset(similar_states.blocks@, x) == (eps(s0, i as int, x) && x != i),
                        forall|k: int| #[trigger] single(s0, i as int, k) ==> dropped(s0, g_map.update(i as int, k as usize), g_from.update(i as int, None), g_del.push(i), i + 1)
                    ensures dropped(s0, state_map@, state_map_from@, deleted@, i + 1)
                    decreases n - k_i2""",
                    end="",
                    before="                let ghost g_map = state_map@; let ghost g_from = state_map_from@; let ghost g_del = deleted@;"),
               Loop("""                invariant n == s0.len(), n <= MAX_SET_SIZE, states_len == n, k_i <= n, state_map@.len() == n, state_map_from@ == f0, deleted@ == d0, dropped(s0, m0, f0, d0, n),
                    forall|j: int| 0 <= j < k_i ==> #[trigger] state_map@[j] == m0[j],
                    forall|j: int| k_i <= j < n ==> #[trigger] state_map@[j] == slot(f0, m0, j),
                decreases k_i""",
                    start="                proof { lemma_slot(s0, f0, m0, d0, k_i - 1); lemma_gone(f0, k_i - 1, n); assert(below(d0, d0.len() as int, k_i - 1) == gone(f0, k_i - 1)); if f0[k_i - 1] is None { assert(single(s0, k_i - 1, m0[k_i - 1] as int)); lemma_slot(s0, f0, m0, d0, m0[k_i - 1] as int); } }",
                    after="            let ghost r0 = state_map@; proof { lemma_gone(f0, 0, n); lemma_slot(s0, f0, m0, d0, 0); }"),
               Loop("""                    invariant j_ <= deleted@.len(), deleted@ == d0, count_ == below(d0, j_ as int, i as int), count_ <= j_, d0.len() <= usize::MAX
                    decreases deleted@.len() - j_"""),
               Loop("""                invariant j_ <= n, state_map@ == r0, r0.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] r0[j] < new_states_len
                decreases n - j_""",
                    before="            proof { assert forall|j: int| 0 <= j < n implies #[trigger] r0[j] < new_states_len by { assert(r0[j] == slot(f0, m0, j)); lemma_slot(s0, f0, m0, d0, j); } lemma_slot(s0, f0, m0, d0, 0); }"),
               Loop("""                invariant sane(s0, c), n == s0.len(), states@ == s0, j_ <= n, state_map@ == r0, state_map_from@ == f0, r0.len() == n, dropped(s0, m0, f0, d0, n), 1 <= new_states_len <= n,
                    forall|j: int| 0 <= j < n ==> #[trigger] r0[j] < new_states_len,
                    out_@.len() == j_ - gone(f0, j_ as int), forall|j: int| 0 <= j < j_ && f0[j] is Some ==> moved(#[trigger] s0[j], r0, out_@[j - gone(f0, j)], blocks_for(new_states_len as int)),
                decreases n - j_""",
                    start="                let ghost j0 = j_ as int; let ghost o0 = out_@; proof { assert(state_sane(s0[j0], n, c)); lemma_gone(f0, 0, j0); }",
                    end="""                proof {
                    assert forall|j: int| 0 <= j < j_ && f0[j] is Some implies moved(#[trigger] s0[j], r0, out_@[j - gone(f0, j)], blocks_for(new_states_len as int)) by {
                        lemma_gone(f0, j, j0);
                        if j < j0 { assert(out_@[j - gone(f0, j)] == o0[j - gone(f0, j)]); }
                    }
                }""",
                    after="            proof { lemma_pruned(s0, out_@, f0, m0, d0, r0, blocks_for(new_states_len as int), c); }"),
               Loop("""                    invariant it_.wf(), sane(s0, c), n == s0.len(), 0 <= j0 < n, *state == s0[j0], state_map@ == r0, r0.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] r0[j] < new_states_len,
                        epsilon_states.blocks@.len() == blocks_for(new_states_len as int), forall|k: int| #[trigger] it_.left(k) ==> 0 <= k < n && isset(s0[j0].epsilon_states.blocks@, k),
                        forall|x: int| #[trigger] isset(epsilon_states.blocks@, x) == (exists|k: int| #[trigger] isset(s0[j0].epsilon_states.blocks@, k) && !it_.left(k) && r0[k] == x),
                    ensures forall|k: int| !#[trigger] it_.left(k)
                    decreases it_.measure()""",
                    start="                            let ghost e0 = epsilon_states.blocks@; let ghost l0 = it_;",
                    after="                        proof { assert forall|x: int| #[trigger] isset(epsilon_states.blocks@, x) == mapped(r0, s0[j0].epsilon_states.blocks@, x) by { if mapped(r0, s0[j0].epsilon_states.blocks@, x) { let k = choose|k: int| #[trigger] isset(s0[j0].epsilon_states.blocks@, k) && r0[k] == x; assert(!it_.left(k)); } } }")],
        at=[("deleted.push(i);", "before", """                        proof {
                            assert forall|x: int| #[trigger] eps(s0, i2 as int, x) == (eps(s0, i as int, x) && x != i) by { assert(isset(similar_states.blocks@, x) == (eps(s0, i as int, x) && x != i)); }
                            assert(single(s0, i as int, i2 as int));
                        }"""),
            ("out_.push(new_);", "before", "proof { assert(moved(s0[j0], r0, new_, blocks_for(new_states_len as int))); }")]))
    # -- end prune
    # -- begin collapse
    outer = nested("collapse_epsilon_char_pairs")
    add("bitset_only_contains", Fn(sig="""    requires index / 32 < bitset.blocks@.len(), 1 <= bitset.blocks@.len(), bitset.blocks@.len() * 32 <= usize::MAX
    ensures r ==> forall|x: int| #[trigger] isset(bitset.blocks@, x) ==> x == index""",
        rules=[("$rx.ones().count()", "{ let mut count_: usize = 0; let mut it_ = $rx.ones(); while let Some(x_) = it_.next() { count_ += 1; } count_ }", ITER)],
        loops=[Loop("""                invariant it_.wf(), count_ <= at_ <= usize::MAX, forall|x: int| #[trigger] it_.left(x) ==> at_ <= x < bitset.blocks@.len() * 32 <= usize::MAX, forall|x: int| #[trigger] it_.left(x) ==> isset(bitset.blocks@, x),
                    count_ == 0 ==> forall|x: int| #[trigger] isset(bitset.blocks@, x) ==> it_.left(x),
                    count_ == 1 ==> forall|x: int| #[trigger] isset(bitset.blocks@, x) ==> it_.left(x) || x == at_ - 1, isset(bitset.blocks@, index as int),
                ensures count_ == 1 ==> forall|x: int| #[trigger] isset(bitset.blocks@, x) ==> x == index
                decreases it_.measure()""",
                before="let ghost mut at_: int = 0;",
                start="                    proof { assert(!it_.left(x_ as int)); at_ = x_ as int + 1; }",
                )]), outer)
    add("is_a_pair", Fn(sig="""    requires exists|b: int| #[trigger] sane(states@, b), eps_index < states@.len(), char_index < states@.len()
    ensures r ==> pair(states@, eps_index as int, char_index as int)""",
        start="            let ghost ss = states@; let ghost c = choose|b: int| #[trigger] sane(ss, b); let ghost n = ss.len() as int; proof { assert(state_sane(ss[eps_index as int], n, c)); assert(state_sane(ss[char_index as int], n, c)); assert(state_sane(ss[ss[char_index as int].next_state as int], n, c)); }",
        rules=[("$rx.iter().enumerate().all(|($ii, $is)| { $e })", "{ let mut all_ = true; let mut j_: usize = 0; while all_ && j_ < $rx.len() { let $ii = j_; let $is = &$rx[j_]; all_ = { $e }; j_ += 1; } all_ }", ITER)],
        loops=[Loop("""                invariant sane(ss, c), ss == states@, n == ss.len(), j_ <= n, eps_index < n, char_index < n, all_ ==> forall|i: int| 0 <= i < j_ ==> apart(ss, eps_index as int, char_index as int, #[trigger] ss[i], i)
                decreases n - j_""", start="                proof { assert(state_sane(ss[j_ as int], n, c)); }")]), outer)
    add("collapse", Fn(sig="""    requires pair(old(states)@, eps_index as int, char_index as int), exists|b: int| #[trigger] sane(old(states)@, b)
    ensures acc_same(old(states)@, final(states)@), final(states)@.len() == old(states)@.len() - 1, forall|b: int| #[trigger] sane(old(states)@, b) ==> sane(final(states)@, b)""",
        rules=[("|$ii: usize| match $e { $z }", "|$ii: usize| -> (r_: usize) requires eps_index != char_index, ensures r_ == remapped(eps_index as int, char_index as int, $ii as int) { match $e { $z } }", "a closure is given a contract"),
               ("$ii.cmp(&$ij)", "compare($ii, $ij)", "the comparison of numbers is written out"),
               ("unreachable!()", "{ rt_unreachable(); 0 }", "proved to be unreachable"),
               ("for $is in $rx.iter_mut() {", "let mut j_: usize = 0; while j_ < $rx.len() { let $is = &mut $rx[j_]; j_ += 1;", ITER)],
        start="            let ghost s0 = states@; let ghost b = choose|b: int| #[trigger] sane(s0, b); let ghost n = s0.len() as int; let ghost e = eps_index as int; let ghost c = char_index as int; proof { lemma_pair(s0, e, c, b); }",
        loops=[Loop("""                invariant sane(s0, b), pair(s0, e, c), e != c, e == eps_index, c == char_index, n == s0.len(), old(states)@ == s0, final(states)@ == final(old(states))@, j_ <= n, states@.len() == n,
                    forall|x: usize| #[trigger] remap.requires((x,)), forall|x: usize, y: usize| #[trigger] remap.ensures((x,), y) ==> y == remapped(e, c, x as int),
                    forall|i: int| j_ <= i < n ==> #[trigger] states@[i] == merged(s0, e, c, i) || i == c,
                    forall|i: int| j_ <= i < n ==> #[trigger] states@[i].epsilon_states == s0[i].epsilon_states && states@[i].next_state < n,
                    forall|i: int| 0 <= i < j_ && i != c ==> changed(#[trigger] merged(s0, e, c, i), e, c, states@[i], b),
                decreases n - j_""",
                start="                let ghost j0 = j_ as int; let ghost s1 = states@; proof { assert(state_sane(s0[j0], n, b)); }",
                end="""                proof {
                    assert forall|i: int| 0 <= i < j_ && i != c implies changed(#[trigger] merged(s0, e, c, i), e, c, states@[i], b) by {
                        if i < j0 { assert(states@[i] == s1[i]); }
                    }
                }"""),
               Loop("""                    invariant it_.wf(), sane(s0, b), e != c, e == eps_index, c == char_index, 0 <= e < n, 0 <= c < n, n == s0.len(), 0 <= j0 < n, final(new_epsilon_states_ref.blocks)@ == end_, new_epsilon_states_ref.blocks@.len() == b,
                        forall|x: usize| #[trigger] remap.requires((x,)), forall|x: usize, y: usize| #[trigger] remap.ensures((x,), y) ==> y == remapped(e, c, x as int),
                        forall|k: int| #[trigger] it_.left(k) ==> 0 <= k < n && isset(s0[j0].epsilon_states.blocks@, k),
                        forall|x: int| #[trigger] isset(new_epsilon_states_ref.blocks@, x) == (exists|k: int| #[trigger] isset(s0[j0].epsilon_states.blocks@, k) && !it_.left(k) && remapped(e, c, k) == x),
                    ensures forall|k: int| !#[trigger] it_.left(k)
                    decreases it_.measure()""",
                    before="                    let ghost end_ = final(new_epsilon_states_ref.blocks)@;",
                    after="                    proof { assert forall|x: int| #[trigger] isset(new_epsilon_states_ref.blocks@, x) == remapped_set(e, c, s0[j0].epsilon_states.blocks@, x) by { if remapped_set(e, c, s0[j0].epsilon_states.blocks@, x) { let k = choose|k: int| #[trigger] isset(s0[j0].epsilon_states.blocks@, k) && remapped(e, c, k) == x; assert(!it_.left(k)); } } }")],
        at=[("states.remove(char_index);", "before", "            let ghost s2 = states@;"),
            ("states.remove(char_index);", "after", """            proof {
                assert forall|i: int| 0 <= i < n && i != c implies changed(#[trigger] merged(s0, e, c, i), e, c, states@[shift(c, i)], b) by { assert(states@[shift(c, i)] == s2[i]); }
                lemma_collapsed(s0, states@, e, c, b);
                assert forall|d: int| #[trigger] sane(s0, d) implies sane(states@, d) by { assert(state_sane(s0[0], n, b)); assert(state_sane(s0[0], n, d)); }
            }""")]), outer)
    add("collapse_epsilon_char_pairs", Fn(sig="""    requires exists|b: int| #[trigger] sane(old(states)@, b)
    ensures acc_same(old(states)@, final(states)@), forall|b: int| #[trigger] sane(old(states)@, b) ==> sane(final(states)@, b), final(states)@.len() <= old(states)@.len(),
        final(states)@.len() == old(states)@.len() ==> final(states)@ == old(states)@""",
        start="            let ghost s0 = states@; let ghost b = choose|b: int| #[trigger] sane(s0, b);", attrs="#[verifier::loop_isolation(false)]",
        loops=[Loop("""                invariant sane(s0, b), sane(states@, b), forall|b: int| #[trigger] sane(s0, b) ==> sane(states@, b), acc_same(s0, states@), states@.len() <= s0.len(), states@.len() == s0.len() ==> states@ == s0, old(states)@ == s0, final(states)@ == final(old(states))@, i <= MAX_SET_SIZE,
                decreases states@.len(), states@.len() - i""", start="                let ghost s1 = states@;"),
               Loop("""                    invariant sane(s0, b), sane(states@, b), forall|b: int| #[trigger] sane(s0, b) ==> sane(states@, b), acc_same(s0, states@), states@.len() <= s0.len(), states@.len() == s0.len() ==> states@ == s0, old(states)@ == s0, final(states)@ == final(old(states))@, i < s1.len(), states@ == s1, end_j == s1.len(), s1.len() <= MAX_SET_SIZE
                decreases end_j - k_j""")]))
    # -- end collapse
    # -- begin all
    add("shrink_bitsets", Fn(sig="""    requires exists|b: int| #[trigger] sane(old(states)@, b)
    ensures same_states(old(states)@, final(states)@), sane(final(states)@, blocks_for(final(states)@.len() as int))""",
        rules=[("for $is in $rx.iter_mut() {", "let mut j_: usize = 0; while j_ < $rx.len() { let $is = &mut $rx[j_]; j_ += 1;", ITER)],
        start="            let ghost s0 = states@; let ghost b = choose|b: int| #[trigger] sane(s0, b); let ghost n = s0.len() as int;",
        loops=[Loop("""                invariant sane(s0, b), n == s0.len(), states_len == n, old(states)@ == s0, final(states)@ == final(old(states))@, j_ <= n, alike(s0, states@),
                    forall|i: int| j_ <= i < n ==> #[trigger] states@[i] == s0[i],
                    forall|i: int, x: int| 0 <= i < n ==> #[trigger] eps(states@, i, x) == eps(s0, i, x),
                    forall|i: int| 0 <= i < j_ ==> (#[trigger] states@[i]).epsilon_states.blocks@.len() == blocks_for(n),
                decreases n - j_""",
                start="                let ghost j0 = j_ as int; let ghost s1 = states@; proof { assert(state_sane(s0[j0], n, b)); assert(s1[j0] == s0[j0]); }",
                end="""                proof {
                    assert forall|i: int, x: int| 0 <= i < n implies #[trigger] eps(states@, i, x) == eps(s0, i, x) by { if i != j0 { assert(states@[i] == s1[i]); assert(eps(s1, i, x) == eps(s0, i, x)); } }
                    assert forall|i: int| 0 <= i < j_ implies (#[trigger] states@[i]).epsilon_states.blocks@.len() == blocks_for(n) by { if i != j0 { assert(states@[i] == s1[i]); } }
                    assert forall|i: int| #![trigger s0[i]] #![trigger states@[i]] 0 <= i < n implies states@[i].char_bitset == s0[i].char_bitset && states@[i].next_state == s0[i].next_state by { assert(s1[i].char_bitset == s0[i].char_bitset && s1[i].next_state == s0[i].next_state); if i != j0 { assert(states@[i] == s1[i]); } }
                }""",
                after="""            proof {
                assert forall|i: int| 0 <= i < n implies state_sane(#[trigger] states@[i], n, blocks_for(n)) by {
                    assert(state_sane(s0[i], n, b));
                    assert forall|x: int| #[trigger] isset(states@[i].epsilon_states.blocks@, x) implies x < n by { assert(eps(states@, i, x) == eps(s0, i, x)); }
                }
            }""")]))
    log = []
    it = Item("fn", "optimize_states", opt.header, without_nested(opt.core), [], 0)
    it.core, it.attrs = it.text, []
    m.log.append(("optimize::optimize_states", "nested functions", "", 1, "functions defined inside of it are extracted on their own"))
    m.add_fn(it, Fn(sig="""    requires exists|b: int| #[trigger] sane(old(states)@, b)
    ensures acc_same(old(states)@, final(states)@), transitive(final(states)@), sane(final(states)@, blocks_for(final(states)@.len() as int)), final(states)@.len() <= old(states)@.len()""",
        rules=[("println!($e)", "()", "output is left out")],
        start="            let ghost s0 = states@; let ghost b0 = choose|b: int| #[trigger] sane(s0, b);",
        loops=[Loop("""            invariant_except_break exists|b: int| #[trigger] sane(states@, b)
            invariant old(states)@ == s0, final(states)@ == final(old(states))@, acc_same(s0, states@), 0 <= loop_count, loop_count + states@.len() <= s0.len() <= MAX_SET_SIZE
            ensures transitive(states@), sane(states@, blocks_for(states@.len() as int))
            decreases states@.len()""", start="            let ghost s1 = states@;")],
        at=[("epsilon_transitive_closure(states);", "after", "            let ghost s2 = states@; proof { assert(exists|b: int| #[trigger] sane(s2, b)) by { let b = choose|b: int| #[trigger] sane(s1, b); assert(sane(s2, b)); } assert(reflexive(s2)); }"),
            ("prune_epsilon_pairs(states);", "after", "            let ghost s3 = states@; proof { assert(sane(s3, blocks_for(s3.len() as int))); }"),
            ("collapse_epsilon_char_pairs(states);", "after", "            let ghost s4 = states@; proof { assert(sane(s4, blocks_for(s3.len() as int))); if s4.len() == s1.len() { lemma_same_states(s2, s3); } }"),
            ("shrink_bitsets(states);", "after", "            proof { lemma_same_states(s4, states@); }")]), "optimize_states", pre="")
    # -- end all
    return m
