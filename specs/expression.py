import re
from build import Module, struct
from extract import Fn, Loop, LostAnchor
FROM = "the trait function is verified as an inherent one of another name"


def module():
    m = Module("expression", "expression.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::tables::*;
""")
    m.text("pub " + m.src.find("const", "MAX_SET_SIZE").core)
    struct(m, "State")
    struct(m, "Expression")
    m.text(r"""
// ---- the automaton

/// The state `j` is reachable from `i` without consuming anything
pub open spec fn eps(ss: Seq<State>, i: int, j: int) -> bool { isset(ss[i].epsilon_states.blocks@, j) }
/// One symbol of the class `cls` leads from the state `u` to the state `t`
pub open spec fn step(ss: Seq<State>, u: int, cls: CharBitset, t: int) -> bool {
    0 <= u < ss.len() && (exists|i: int| cls.has_sym(i) && ss[u].char_bitset.has_sym(i)) && eps(ss, ss[u].next_state as int, t)
}
pub open spec fn class_of(c: Char) -> CharBitset { CharBitset((1u32 << (c.0 as u32))) }

pub open spec fn via(ss: Seq<State>, from: spec_fn(int) -> bool, cls: CharBitset, t: int) -> bool { exists|u: int| #[trigger] from(u) && step(ss, u, cls, t) }
/// The states which can be reached from the states `from` by one symbol of the class `cls`
pub open spec fn image(ss: Seq<State>, from: Seq<u32>, cls: CharBitset, t: int) -> bool { exists|u: int| #[trigger] isset(from, u) && step(ss, u, cls, t) }
/// Is `x` in one of the rows for at most `f` edits?
pub open spec fn has(t: BitSet3D, s: int, f: int, x: int) -> bool { exists|g: int| 0 <= g <= f && #[trigger] isset(at(t, s, g), x) }
/// Every row of the table is a set of `n` states
pub open spec fn tidy(t: BitSet3D, a: int, b: int, n: int) -> bool {
    forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f < b && #[trigger] isset(at(t, s, f), x) ==> x < n
}

impl Expression {
    pub open spec fn table(self, t: BitSet3D) -> bool { dims(t, self.n() as int, self.fuzz + 1, self.n() as int) }
    /// Nothing is in the table which can't be reached
    pub open spec fn sound(self, t: BitSet3D, a: int, w: Seq<Char>) -> bool {
        forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] isset(at(t, s, f), x) ==> self.reach(s, w, f)(x)
    }
    /// The rows 0..a are complete, up to insertions after the last symbol
    pub open spec fn between(self, t: BitSet3D, a: int, w: Seq<Char>) -> bool {
        self.sound(t, a, w) && (forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] self.reach0(s, w, f)(x) ==> has(t, s, f, x))
    }
    /// The rows 0..a tell which states can be reached by `w`. (A state may be left out of a row if it is in one with fewer edits)
    pub open spec fn correct(self, t: BitSet3D, a: int, w: Seq<Char>) -> bool {
        self.sound(t, a, w) && (forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] self.reach(s, w, f)(x) ==> has(t, s, f, x))
    }
    pub open spec fn no_rows(self, t: BitSet3D, a: int) -> bool {
        forall|s: int, f: int| 0 <= s < a && 0 <= f <= self.fuzz ==> no_bits(#[trigger] at(t, s, f))
    }
    pub open spec fn inserted_row(self, t0: BitSet3D, t: BitSet3D, s: int, k: int) -> bool {
        at(t, s, 0) == at(t0, s, 0) && (forall|f: int, x: int| 0 <= f < k ==> #[trigger] isset(at(t, s, f + 1), x) == (isset(at(t0, s, f + 1), x) || image(self.states@, at(t, s, f), CharBitset::LETTERS, x)))
    }
    pub open spec fn inserted(self, t0: BitSet3D, t: BitSet3D, a: int) -> bool { forall|s: int| 0 <= s < a ==> #[trigger] self.inserted_row(t0, t, s, self.fuzz as int) }
    pub open spec fn starts(self, single: bool) -> int { if single { 1 } else { self.n() as int } }
    pub open spec fn n(self) -> nat { self.states@.len() }
    pub open spec fn wf(self) -> bool {
        &&& 1 <= self.states@.len() <= MAX_SET_SIZE
        &&& self.fuzz < MAX_SET_SIZE
        &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] state_wf(self.states@[i], self.n())
    }
    /// Is the symbol ignored?
    pub open spec fn skips(self, c: Char) -> bool { (self.ignore_word_boundaries && c.sym() == SPACE) || (self.ignore_punctuation && c.sym() == PUNCT) }
    /// Does the word `w` lead from the state `s` to a state with at most `f` edits?
    /// (before letters are inserted after its last symbol)
    pub open spec fn reach0(self, s: int, w: Seq<Char>, f: int) -> spec_fn(int) -> bool
        decreases w.len(), f, 0int
    {
        if w.len() == 0 { |t: int| eps(self.states@, s, t) }
        else if self.skips(w.last()) { self.reach(s, w.drop_last(), f) }
        else {
            |t: int| {
                ||| via(self.states@, self.reach(s, w.drop_last(), f), class_of(w.last()), t)
                ||| f > 0 && self.reach(s, w.drop_last(), f - 1)(t)
                ||| f > 0 && via(self.states@, self.reach(s, w.drop_last(), f - 1), CharBitset::LETTERS, t)
            }
        }
    }
    pub open spec fn reach(self, s: int, w: Seq<Char>, f: int) -> spec_fn(int) -> bool
        decreases w.len(), f, 1int
    {
        |t: int| self.reach0(s, w, f)(t) || (f > 0 && via(self.states@, self.reach(s, w, f - 1), CharBitset::LETTERS, t))
    }
    /// What the rows `l` of the state `s` lead to by one more symbol with `f` edits, apart from insertions after it
    pub open spec fn next_rows(self, l: BitSet3D, s: int, c: Char, f: int, x: int) -> bool {
        ||| image(self.states@, at(l, s, f), class_of(c), x)
        ||| f > 0 && isset(at(l, s, f - 1), x)
        ||| f > 0 && image(self.states@, at(l, s, f - 1), CharBitset::LETTERS, x)
    }
    /// The rows for `f` < `k` edits of the state `s` have been advanced by the symbol `c`
    pub open spec fn advanced_row(self, l: BitSet3D, u: BitSet3D, s: int, c: Char, k: int) -> bool {
        &&& forall|f: int, x: int| 0 <= f < k && #[trigger] isset(at(u, s, f), x) ==> self.next_rows(l, s, c, f, x)
        &&& forall|f: int, x: int| 0 <= f < k && #[trigger] self.next_rows(l, s, c, f, x) ==> has(u, s, f, x)
    }
    pub open spec fn advanced(self, l: BitSet3D, u: BitSet3D, a: int, c: Char) -> bool { forall|s: int| 0 <= s < a ==> #[trigger] self.advanced_row(l, u, s, c, self.fuzz + 1) }
    /// The tables `t` up to `k` tell what can be reached, if the table at the start does so
    pub open spec fn filled(self, t0: BitSet3D, t: Seq<BitSet3D>, a: int, chars: Seq<Char>, k: int) -> bool {
        forall|pre: Seq<Char>, j: int| self.between(t0, a, pre) && 0 <= j < k ==> #[trigger] self.correct(t[j], a, pre + chars.take(j))
    }
    pub open spec fn filled_at(self, t0: BitSet3D, t: BitSet3D, a: int, chars: Seq<Char>, k: int) -> bool {
        forall|pre: Seq<Char>| self.between(t0, a, pre) ==> #[trigger] self.between(t, a, pre + chars.take(k))
    }
    /// There is something in all tables up to `k` that are followed by a symbol which is not ignored
    pub open spec fn running(self, t: Seq<BitSet3D>, a: int, chars: Seq<Char>, k: int) -> bool {
        forall|j: int| 0 <= j < k && !self.skips(chars[j]) ==> !self.no_rows(#[trigger] t[j], a)
    }
    proof fn lemma_advanced(self, l: BitSet3D, u: BitSet3D, a: int, w: Seq<Char>, c: Char)
        requires self.correct(l, a, w), !self.skips(c), self.advanced(l, u, a, c)
        ensures self.between(u, a, w.push(c))
    {
        let v = w.push(c);
        assert(v.last() == c && v.drop_last() =~= w);
        let ss = self.states@;
        assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] isset(at(u, s, f), x) implies self.reach(s, v, f)(x) by {
            assert(self.advanced_row(l, u, s, c, self.fuzz + 1));
            assert(self.next_rows(l, s, c, f, x));
            if image(ss, at(l, s, f), class_of(c), x) {
                let y = choose|y: int| #[trigger] isset(at(l, s, f), y) && step(ss, y, class_of(c), x);
                assert(via(ss, self.reach(s, w, f), class_of(c), x));
            } else if f > 0 && isset(at(l, s, f - 1), x) {
                assert(self.reach(s, w, f - 1)(x));
            } else {
                let y = choose|y: int| #[trigger] isset(at(l, s, f - 1), y) && step(ss, y, CharBitset::LETTERS, x);
                assert(self.reach(s, w, f - 1)(y));
                assert(via(ss, self.reach(s, w, f - 1), CharBitset::LETTERS, x));
            }
            assert(self.reach0(s, v, f)(x));
        }
        assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] self.reach0(s, v, f)(x) implies has(u, s, f, x) by {
            assert(self.advanced_row(l, u, s, c, self.fuzz + 1));
            if via(ss, self.reach(s, w, f), class_of(c), x) {
                let y = choose|y: int| #[trigger] self.reach(s, w, f)(y) && step(ss, y, class_of(c), x);
                assert(has(l, s, f, y));
                let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(l, s, g), y);
                assert(self.next_rows(l, s, c, g, x));
                lemma_has(u, s, g, f, x);
            } else if f > 0 && self.reach(s, w, f - 1)(x) {
                assert(has(l, s, f - 1, x));
                let g = choose|g: int| 0 <= g <= f - 1 && #[trigger] isset(at(l, s, g), x);
                assert(self.next_rows(l, s, c, g + 1, x));
                lemma_has(u, s, g + 1, f, x);
            } else {
                assert(via(ss, self.reach(s, w, f - 1), CharBitset::LETTERS, x));
                let y = choose|y: int| #[trigger] self.reach(s, w, f - 1)(y) && step(ss, y, CharBitset::LETTERS, x);
                assert(has(l, s, f - 1, y));
                let g = choose|g: int| 0 <= g <= f - 1 && #[trigger] isset(at(l, s, g), y);
                assert(self.next_rows(l, s, c, g + 1, x));
                lemma_has(u, s, g + 1, f, x);
            }
        }
    }
    proof fn lemma_same(self, l: BitSet3D, u: BitSet3D, v: BitSet3D, s: int, c: Char, k: int)
        requires self.advanced_row(l, u, s, c, k), forall|f: int| 0 <= f < k ==> #[trigger] at(v, s, f) == at(u, s, f)
        ensures self.advanced_row(l, v, s, c, k)
    {
        assert forall|f: int, x: int| 0 <= f < k && #[trigger] self.next_rows(l, s, c, f, x) implies has(v, s, f, x) by {
            assert(has(u, s, f, x));
            let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(u, s, g), x);
            assert(isset(at(v, s, g), x));
        }
    }
    /// One more row: `sup` are states that are in rows with fewer edits
    proof fn lemma_edit(self, l: BitSet3D, u: BitSet3D, v: BitSet3D, s: int, c: Char, f: int, sup: Seq<u32>)
        requires self.advanced_row(l, u, s, c, f + 1), 0 <= f, forall|g: int| 0 <= g <= f ==> #[trigger] at(v, s, g) == at(u, s, g),
            forall|x: int| #[trigger] isset(at(v, s, f + 1), x) == ((image(self.states@, at(l, s, f + 1), class_of(c), x) || isset(at(l, s, f), x) || image(self.states@, at(l, s, f), CharBitset::LETTERS, x)) && !isset(sup, x)),
            forall|x: int| #[trigger] isset(sup, x) ==> has(u, s, f, x),
        ensures self.advanced_row(l, v, s, c, f + 2), forall|x: int| has(u, s, f, x) ==> #[trigger] has(v, s, f + 1, x), forall|x: int| #[trigger] isset(at(v, s, f + 1), x) ==> has(v, s, f + 1, x),
    {
        self.lemma_same(l, u, v, s, c, f + 1);
        assert forall|x: int| has(u, s, f, x) implies #[trigger] has(v, s, f + 1, x) by {
            let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(u, s, g), x);
            assert(isset(at(v, s, g), x));
        }
        assert forall|g: int, x: int| 0 <= g < f + 2 && #[trigger] isset(at(v, s, g), x) implies self.next_rows(l, s, c, g, x) by {
            if g == f + 1 { assert(isset(at(v, s, f + 1), x)); }
        }
        assert forall|g: int, x: int| 0 <= g < f + 2 && #[trigger] self.next_rows(l, s, c, g, x) implies has(v, s, g, x) by {
            if g == f + 1 {
                assert(isset(at(v, s, f + 1), x) || isset(sup, x));
            }
        }
    }
    /// A symbol that is ignored changes nothing
    proof fn lemma_skipped(self, l: BitSet3D, u: BitSet3D, a: int, w: Seq<Char>, c: Char)
        requires self.correct(l, a, w), self.skips(c), u.size == l.size, u.blocks@ == l.blocks@
        ensures self.between(u, a, w.push(c))
    {
        let v = w.push(c);
        assert(v.last() == c && v.drop_last() =~= w);
        assert forall|s: int, f: int| at(u, s, f) == at(l, s, f) by {}
        assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] self.reach0(s, v, f)(x) implies has(u, s, f, x) by {
            assert(self.reach(s, w, f)(x));
            assert(has(l, s, f, x));
            let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(l, s, g), x);
            assert(isset(at(u, s, g), x));
        }
        assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] isset(at(u, s, f), x) implies self.reach(s, v, f)(x) by {
            assert(isset(at(l, s, f), x));
            assert(self.reach(s, w, f)(x));
            assert(self.reach0(s, v, f)(x));
        }
    }
    proof fn lemma_inserted(self, t0: BitSet3D, t: BitSet3D, a: int)
        requires self.inserted(t0, t, a)
        ensures forall|w: Seq<Char>| #[trigger] self.between(t0, a, w) ==> self.correct(t, a, w)
    {
        assert forall|w: Seq<Char>| #[trigger] self.between(t0, a, w) implies self.correct(t, a, w) by {
            assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] isset(at(t, s, f), x) implies self.reach(s, w, f)(x) by { self.lemma_inserted_sound(t0, t, a, w, s, f, x); }
            assert forall|s: int, f: int, x: int| 0 <= s < a && 0 <= f <= self.fuzz && #[trigger] self.reach(s, w, f)(x) implies has(t, s, f, x) by { self.lemma_inserted_complete(t0, t, a, w, s, f, x); }
        }
    }
    proof fn lemma_inserted_sound(self, t0: BitSet3D, t: BitSet3D, a: int, w: Seq<Char>, s: int, f: int, x: int)
        requires self.inserted(t0, t, a), self.between(t0, a, w), 0 <= s < a, 0 <= f <= self.fuzz, isset(at(t, s, f), x)
        ensures self.reach(s, w, f)(x)
        decreases f
    {
        assert(self.inserted_row(t0, t, s, self.fuzz as int));
        if f > 0 && !isset(at(t0, s, f), x) {
            let g = f - 1;
            assert(isset(at(t, s, g + 1), x));
            assert(image(self.states@, at(t, s, g), CharBitset::LETTERS, x));
            let u = choose|u: int| #[trigger] isset(at(t, s, g), u) && step(self.states@, u, CharBitset::LETTERS, x);
            self.lemma_inserted_sound(t0, t, a, w, s, g, u);
            assert(via(self.states@, self.reach(s, w, f - 1), CharBitset::LETTERS, x));
        }
    }
    proof fn lemma_inserted_complete(self, t0: BitSet3D, t: BitSet3D, a: int, w: Seq<Char>, s: int, f: int, x: int)
        requires self.inserted(t0, t, a), self.between(t0, a, w), 0 <= s < a, 0 <= f <= self.fuzz, self.reach(s, w, f)(x)
        ensures has(t, s, f, x)
        decreases f
    {
        assert(self.inserted_row(t0, t, s, self.fuzz as int));
        if self.reach0(s, w, f)(x) {
            let g = choose|g: int| 0 <= g <= f && #[trigger] isset(at(t0, s, g), x);
            if g > 0 { assert(isset(at(t, s, (g - 1) + 1), x)); } else { assert(isset(at(t, s, g), x)); }
        } else {
            assert(via(self.states@, self.reach(s, w, f - 1), CharBitset::LETTERS, x));
            let u = choose|u: int| #[trigger] self.reach(s, w, f - 1)(u) && step(self.states@, u, CharBitset::LETTERS, x);
            self.lemma_inserted_complete(t0, t, a, w, s, f - 1, u);
            let g = choose|g: int| 0 <= g <= f - 1 && #[trigger] isset(at(t, s, g), u);
            assert(image(self.states@, at(t, s, g), CharBitset::LETTERS, x));
            assert(isset(at(t, s, g + 1), x));
        }
    }
}
pub proof fn lemma_has(t: BitSet3D, s: int, g: int, f: int, x: int)
    requires has(t, s, g, x), g <= f
    ensures has(t, s, f, x)
{
    let h = choose|h: int| 0 <= h <= g && #[trigger] isset(at(t, s, h), x);
    assert(0 <= h <= f);
}
pub proof fn lemma_class(ss: Seq<State>, cls: CharBitset, c: Char)
    requires c.wf(), forall|i: int| cls.has_sym(i) == (i == c.sym())
    ensures forall|from: Seq<u32>, x: int| #[trigger] image(ss, from, cls, x) == image(ss, from, class_of(c), x)
{
    lemma_single(c.0);
    assert forall|i: int| cls.has_sym(i) == #[trigger] class_of(c).has_sym(i) by {}
    assert forall|u: int, x: int| #[trigger] step(ss, u, cls, x) == step(ss, u, class_of(c), x) by {
        if step(ss, u, cls, x) { let i = choose|i: int| cls.has_sym(i) && ss[u].char_bitset.has_sym(i); assert(class_of(c).has_sym(i) && ss[u].char_bitset.has_sym(i)); }
        if step(ss, u, class_of(c), x) { let i = choose|i: int| class_of(c).has_sym(i) && ss[u].char_bitset.has_sym(i); assert(cls.has_sym(i) && ss[u].char_bitset.has_sym(i)); }
    }
    assert forall|from: Seq<u32>, x: int| #[trigger] image(ss, from, cls, x) == image(ss, from, class_of(c), x) by {
        if image(ss, from, cls, x) { let u = choose|u: int| #[trigger] isset(from, u) && step(ss, u, cls, x); assert(step(ss, u, class_of(c), x)); }
        if image(ss, from, class_of(c), x) { let u = choose|u: int| #[trigger] isset(from, u) && step(ss, u, class_of(c), x); assert(step(ss, u, cls, x)); }
    }
}
pub open spec fn state_wf(s: State, n: nat) -> bool {
    s.epsilon_states.blocks@.len() == blocks_for(n as int) && s.next_state < n && (forall|j: int| #[trigger] isset(s.epsilon_states.blocks@, j) ==> j < n)
}
// ---- what `reach` means: the strings within `f` edits

/// The automaton leads from the state `s` to `t` by the string `v`
pub open spec fn path(ss: Seq<State>, s: int, v: Seq<Char>) -> spec_fn(int) -> bool
    decreases v.len()
{
    if v.len() == 0 { |t: int| eps(ss, s, t) } else { |t: int| via(ss, path(ss, s, v.drop_last()), class_of(v.last()), t) }
}
impl Expression {
    /// The word `w` can be turned into the string `v` with at most `f` edits (deleted, replaced, or inserted
    /// symbols; only letters are inserted). Symbols which are ignored cost nothing.
    pub open spec fn edits(self, w: Seq<Char>, v: Seq<Char>, f: int) -> bool
        decreases w.len(), v.len(), 0int
    {
        ||| w.len() == 0 && v.len() == 0
        ||| w.len() > 0 && self.skips(w.last()) && self.edits(w.drop_last(), v, f)
        ||| w.len() > 0 && !self.skips(w.last()) && v.len() > 0 && w.last().sym() == v.last().sym() && self.edits(w.drop_last(), v.drop_last(), f)
        ||| f > 0 && w.len() > 0 && !self.skips(w.last()) && self.edits(w.drop_last(), v, f - 1)
        ||| f > 0 && w.len() > 0 && !self.skips(w.last()) && v.len() > 0 && is_letter(v.last().sym()) && self.edits(w.drop_last(), v.drop_last(), f - 1)
        ||| f > 0 && v.len() > 0 && is_letter(v.last().sym()) && self.edits(w, v.drop_last(), f - 1)
    }
    /// There is a string of the automaton within `f` edits
    pub open spec fn near(self, s: int, w: Seq<Char>, f: int, t: int) -> bool {
        exists|v: Seq<Char>| good(v) && #[trigger] path(self.states@, s, v)(t) && self.edits(w, v, f)
    }
    proof fn lemma_via_letter(self, s: int, v: Seq<Char>, w: Seq<Char>, f: int, cls: CharBitset, u: int, t: int) -> (c: Char)
        requires good(v), path(self.states@, s, v)(u), step(self.states@, u, cls, t), cls.wf(),
        ensures c.wf(), cls.has_sym(c.sym()), good(v.push(c)), path(self.states@, s, v.push(c))(t), v.push(c).drop_last() == v, v.push(c).last() == c,
    {
        let ss = self.states@;
        let i = choose|i: int| cls.has_sym(i) && ss[u].char_bitset.has_sym(i);
        let c = Char(i as u8);
        assert(cls.wf());
        lemma_in_class(cls, i);
        lemma_single(c.0);
        assert(class_of(c).has_sym(i));
        assert(step(ss, u, class_of(c), t));
        assert(v.push(c).drop_last() =~= v);
        assert(via(ss, path(ss, s, v), class_of(c), t));
        c
    }
    /// `reach` tells whether there is a string within `f` edits
    pub proof fn lemma_reach(self, s: int, w: Seq<Char>, f: int, t: int)
        requires f >= 0, good(w)
        ensures self.reach(s, w, f)(t) == self.near(s, w, f, t)
        decreases w.len(), f
    {
        let ss = self.states@;
        if self.reach(s, w, f)(t) { self.lemma_reach_sound(s, w, f, t); }
        if self.near(s, w, f, t) {
            let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, s, v)(t) && self.edits(w, v, f);
            self.lemma_reach_complete(s, w, v, f, t);
        }
    }
    proof fn lemma_reach_sound(self, s: int, w: Seq<Char>, f: int, t: int)
        requires f >= 0, good(w), self.reach(s, w, f)(t)
        ensures self.near(s, w, f, t)
        decreases w.len(), f
    {
        let ss = self.states@;
        lemma_consts();
        let d = w.drop_last();
        if !self.reach0(s, w, f)(t) {
            assert(via(ss, self.reach(s, w, f - 1), CharBitset::LETTERS, t));
            let u = choose|u: int| #[trigger] self.reach(s, w, f - 1)(u) && step(ss, u, CharBitset::LETTERS, t);
            self.lemma_reach_sound(s, w, f - 1, u);
            let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, s, v)(u) && self.edits(w, v, f - 1);
            let c = self.lemma_via_letter(s, v, w, f, CharBitset::LETTERS, u, t);
            assert(self.edits(w, v.push(c), f));
            assert(path(ss, s, v.push(c))(t));
        } else if w.len() == 0 {
            let v = Seq::<Char>::empty();
            assert(path(ss, s, v)(t));
            assert(self.edits(w, v, f));
        } else if self.skips(w.last()) {
            assert(self.reach(s, d, f)(t));
            self.lemma_reach_sound(s, d, f, t);
            let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, s, v)(t) && self.edits(d, v, f);
            assert(self.edits(w, v, f));
        } else if via(ss, self.reach(s, d, f), class_of(w.last()), t) {
            let u = choose|u: int| #[trigger] self.reach(s, d, f)(u) && step(ss, u, class_of(w.last()), t);
            self.lemma_reach_sound(s, d, f, u);
            let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, s, v)(u) && self.edits(d, v, f);
            lemma_single(w.last().0);
            let c = self.lemma_via_letter(s, v, w, f, class_of(w.last()), u, t);
            assert(self.edits(w, v.push(c), f));
            assert(path(ss, s, v.push(c))(t));
        } else if f > 0 && self.reach(s, d, f - 1)(t) {
            self.lemma_reach_sound(s, d, f - 1, t);
            let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, s, v)(t) && self.edits(d, v, f - 1);
            assert(self.edits(w, v, f));
        } else {
            assert(via(ss, self.reach(s, d, f - 1), CharBitset::LETTERS, t));
            let u = choose|u: int| #[trigger] self.reach(s, d, f - 1)(u) && step(ss, u, CharBitset::LETTERS, t);
            self.lemma_reach_sound(s, d, f - 1, u);
            let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, s, v)(u) && self.edits(d, v, f - 1);
            let c = self.lemma_via_letter(s, v, w, f, CharBitset::LETTERS, u, t);
            assert(self.edits(w, v.push(c), f));
            assert(path(ss, s, v.push(c))(t));
        }
    }
    proof fn lemma_reach_complete(self, s: int, w: Seq<Char>, v: Seq<Char>, f: int, t: int)
        requires f >= 0, good(w), good(v), path(self.states@, s, v)(t), self.edits(w, v, f)
        ensures self.reach(s, w, f)(t)
        decreases w.len(), v.len()
    {
        let ss = self.states@;
        lemma_consts();
        let d = w.drop_last();
        let e = v.drop_last();
        if v.len() > 0 { lemma_single(v.last().0); }
        if w.len() == 0 && v.len() == 0 {
            assert(self.reach0(s, w, f)(t));
        } else if w.len() > 0 && self.skips(w.last()) && self.edits(d, v, f) {
            self.lemma_reach_complete(s, d, v, f, t);
            assert(self.reach0(s, w, f)(t));
        } else if w.len() > 0 && !self.skips(w.last()) && v.len() > 0 && w.last().sym() == v.last().sym() && self.edits(d, e, f) {
            assert(via(ss, path(ss, s, e), class_of(v.last()), t));
            let u = choose|u: int| #[trigger] path(ss, s, e)(u) && step(ss, u, class_of(v.last()), t);
            self.lemma_reach_complete(s, d, e, f, u);
            assert(w.last() == v.last());
            assert(via(ss, self.reach(s, d, f), class_of(w.last()), t));
            assert(self.reach0(s, w, f)(t));
        } else if f > 0 && w.len() > 0 && !self.skips(w.last()) && self.edits(d, v, f - 1) {
            self.lemma_reach_complete(s, d, v, f - 1, t);
            assert(self.reach0(s, w, f)(t));
        } else {
            assert(via(ss, path(ss, s, e), class_of(v.last()), t));
            let u = choose|u: int| #[trigger] path(ss, s, e)(u) && step(ss, u, class_of(v.last()), t);
            assert(step(ss, u, CharBitset::LETTERS, t)) by {
                let i = choose|i: int| class_of(v.last()).has_sym(i) && ss[u].char_bitset.has_sym(i);
                assert(i == v.last().sym());
                assert(CharBitset::LETTERS.has_sym(i) && ss[u].char_bitset.has_sym(i));
            }
            if f > 0 && w.len() > 0 && !self.skips(w.last()) && is_letter(v.last().sym()) && self.edits(d, e, f - 1) {
                self.lemma_reach_complete(s, d, e, f - 1, u);
                assert(via(ss, self.reach(s, d, f - 1), CharBitset::LETTERS, t));
                assert(self.reach0(s, w, f)(t));
            } else {
                self.lemma_reach_complete(s, w, e, f - 1, u);
                assert(via(ss, self.reach(s, w, f - 1), CharBitset::LETTERS, t));
            }
        }
    }
}
pub open spec fn good(w: Seq<Char>) -> bool { forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]).wf() }
pub proof fn lemma_in_class(cls: CharBitset, i: int)
    requires cls.wf(), cls.has_sym(i)
    ensures 0 <= i < SYMBOLS
{}
""")
    COMMON = """self.wf(), n == self.n(), b == self.fuzz + 1, ss == self.states@, a == self.starts(single_word_only), 0 <= n_start_states == a <= n,
                    char_index < chars@.len(), chr == chars@[char_index as int], chr.wf(), lower_table@ == lo_, lo_.len() == char_index + 1, lo_[char_index as int] == l, final(upper_table)@ == up_,
                    upper_table@.len() == up0.len() >= 1, forall|j: int| 1 <= j < up0.len() ==> #[trigger] upper_table@[j] == up0[j],
                    self.table(l), self.table(upper_table@[0]), forall|from: Seq<u32>, x: int| #[trigger] image(ss, from, char_bitset, x) == image(ss, from, class_of(chr), x)"""
    m.impl("impl State", {
        "new": Fn(sig="    ensures r.char_bitset == CharBitset::EMPTY, r.next_state == 0, r.epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int), no_bits(r.epsilon_states.blocks@)"),
        "new_transition": Fn(sig="    ensures r.char_bitset == char_bitset, r.next_state == next_state, r.epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int), no_bits(r.epsilon_states.blocks@)"),
        "epsilon_states_bitset_mut": Fn(sig="""    ensures r.blocks@ == old(self).epsilon_states.blocks@, final(self).epsilon_states.blocks@ == final(r.blocks)@, final(r.blocks)@.len() == r.blocks@.len(),
        final(self).char_bitset == old(self).char_bitset, final(self).next_state == old(self).next_state"""),
        "epsilon_states_bitset": Fn(sig="    ensures r.blocks@ == self.epsilon_states.blocks@"),
    })
    m.impl("impl Expression", {
        "states_len": Fn(sig="    ensures r == self.n()"),
        "epsilon_states": Fn(sig="    requires state_index < self.n()\n    ensures r.blocks@ == self.states@[state_index as int].epsilon_states.blocks@"),
        "char_transitions": Fn(sig="""    requires self.wf(), start_states.blocks@.len() == blocks_for(self.n() as int),
    ensures r.blocks@.len() == blocks_for(self.n() as int), r.size == (), r.row(()) == r.blocks@,
        forall|t: int| #[trigger] isset(r.blocks@, t) == image(self.states@, start_states.blocks@, char_bitset, t),""",
            at=[("let mut end_states", "before", "        proof { lemma_zeros(blocks_for(self.n() as int) as nat); lemma_unit(result_bitset); }"),
                ("let mut end_states = $a;", "after", "        let ghost end_ = final(end_states.blocks)@;"),
                ("result_bitset }", "before", "        proof { lemma_unit(result_bitset); }")],
            loops=[Loop(inv="""            invariant final(end_states.blocks)@ == end_, self.wf(), start_states.blocks@.len() == blocks_for(self.n() as int), 0 <= k_si <= self.n(),
                end_states.blocks@.len() == blocks_for(self.n() as int), end_states.size == (),
                forall|t: int| #[trigger] isset(end_states.blocks@, t) == (exists|u: int| u < k_si && #[trigger] isset(start_states.blocks@, u) && step(self.states@, u, char_bitset, t)),
            decreases self.states@.len() - k_si""", start="                proof { let ghost st = self.states@[k_si as int]; assert(state_wf(st, self.n())); assert(state_wf(self.states@[st.next_state as int], self.n())); }")]),
        "fill_transition_table": Fn(sig="""    requires self.wf(), old(transition_table)@.len() > chars@.len(), chars@.len() < usize::MAX,
        forall|j: int| 0 <= j < old(transition_table)@.len() ==> #[trigger] self.table(old(transition_table)@[j]),
        forall|j: int| 0 <= j < chars@.len() ==> (#[trigger] chars@[j]).wf(),
    ensures r <= chars@.len(), final(transition_table)@.len() == old(transition_table)@.len(),
        forall|j: int| 0 <= j < old(transition_table)@.len() ==> #[trigger] self.table(final(transition_table)@[j]),
        self.filled(old(transition_table)@[0], final(transition_table)@, self.starts(single_word_only), chars@, r + 1),
        r < chars@.len() ==> self.no_rows(final(transition_table)@[r as int], self.starts(single_word_only)) && !self.skips(chars@[r as int]),
        self.running(final(transition_table)@, self.starts(single_word_only), chars@, r as int),""",
            attrs="#[verifier::rlimit(60)]", rules=[("CharBitset::from($i)", "CharBitset::from_char($i)", FROM)],
            start="        let ghost tt = transition_table@; let ghost a = self.starts(single_word_only); let ghost n = self.n() as int; let ghost b = self.fuzz + 1; let ghost ss = self.states@;",
            at=[("self.fill_insertions(&mut transition_table[char_index]", "before", """            let ghost ta = transition_table@;"""),
                ("let (lower_table", "before", """            let ghost tb = transition_table@;
            proof {
                assert forall|j: int| 0 <= j < tt.len() implies #[trigger] self.table(tb[j]) by { if j != char_index { assert(tb[j] == ta[j]); } }
                assert forall|pre: Seq<Char>, j: int| self.between(tt[0], a, pre) && 0 <= j < char_index + 1 implies #[trigger] self.correct(tb[j], a, pre + chars@.take(j)) by {
                    if j < char_index { assert(tb[j] == ta[j]); } else { assert(self.between(ta[j], a, pre + chars@.take(j))); }
                }
            }"""),
                ("if (self.ignore_word_boundaries", "before", """            let ghost l = lower_table@[char_index as int]; let ghost up0 = upper_table@; let ghost up_ = final(upper_table)@; let ghost lo_ = lower_table@;
            proof {
                lemma_class(ss, char_bitset, chr);
                assert(self.table(tb[char_index as int])); assert(self.table(tb[char_index + 1]));
                assert forall|j: int| 0 <= j <= char_index implies lo_[j] == tb[j] by {}
                assert forall|pre: Seq<Char>| self.between(tt[0], a, pre) implies #[trigger] self.correct(l, a, pre + chars@.take(char_index as int)) by { assert(self.correct(tb[char_index as int], a, pre + chars@.take(char_index as int))); }
                assert(chars@.take(char_index + 1) =~= chars@.take(char_index as int).push(chr));
            }"""),
                ("continue;", "before", """                proof {
                    assert forall|f: int, x: int| 0 <= f < b && #[trigger] self.next_rows(l, s_, chr, f, x) implies has(upper_table@[0], s_, f, x) by { assert(no_bits(at(l, s_, f))); if f > 0 { assert(no_bits(at(l, s_, f - 1))); } }
                    assert(self.advanced_row(l, upper_table@[0], s_, chr, b));
                    let u = upper_table@[0];
                    assert forall|s: int| 0 <= s < k_state_index implies #[trigger] self.advanced_row(l, u, s, chr, b) by {
                        if s < state_index { assert(self.advanced_row(l, u1, s, chr, b)); self.lemma_same(l, u1, u, s, chr, b); }
                    }
                }""", 1),
                ("continue;", "before", """                    proof {
                        let u = upper_table@[0];
                        lemma_with_row(u4, u, n, b, n, s_, f_ + 1);
                        lemma_zeros(0);
                        self.lemma_edit(l, u4, u, s_, chr, f_, seq![]);
                    }""", 2),
                ("continue;", "before", """                proof {
                    let u = upper_table@[0];
                    assert(u.blocks@ == l.blocks@);
                    assert forall|pre: Seq<Char>| self.between(tt[0], a, pre) implies #[trigger] self.between(u, a, pre + chars@.take(char_index + 1)) by {
                        self.lemma_skipped(l, u, a, pre + chars@.take(char_index as int), chr);
                        assert((pre + chars@.take(char_index as int)).push(chr) =~= pre + chars@.take(char_index + 1));
                    }
                }"""),
                ("self.fill_insertions(&mut transition_table[chars.len()]", "before", """        let ghost ta = transition_table@; let ghost k_ = chars@.len() as int;"""),
                ("self.fill_insertions(&mut transition_table[chars.len()], $a);", "after", """        proof {
            let tb = transition_table@;
            assert forall|j: int| 0 <= j < tt.len() implies #[trigger] self.table(tb[j]) by { if j != k_ { assert(tb[j] == ta[j]); } }
            assert forall|pre: Seq<Char>, j: int| self.between(tt[0], a, pre) && 0 <= j < k_ + 1 implies #[trigger] self.correct(tb[j], a, pre + chars@.take(j)) by {
                if j < k_ { assert(tb[j] == ta[j]); } else { assert(self.between(ta[j], a, pre + chars@.take(j))); }
            }
        }"""),
                ("if all_states_are_empty {", "before", """            proof {
                let u = upper_table@[0];
                assert forall|pre: Seq<Char>| self.between(tt[0], a, pre) implies #[trigger] self.between(u, a, pre + chars@.take(char_index + 1)) by {
                    self.lemma_advanced(l, u, a, pre + chars@.take(char_index as int), chr);
                    assert((pre + chars@.take(char_index as int)).push(chr) =~= pre + chars@.take(char_index + 1));
                }
            }"""),
                ],
            loops=[
                Loop("""            invariant self.wf(), n == self.n(), b == self.fuzz + 1, ss == self.states@, a == self.starts(single_word_only), 0 <= n_start_states == a <= n, tt.len() > chars@.len(), chars@.len() < usize::MAX,
                tt == old(transition_table)@, final(transition_table)@ == final(old(transition_table))@, 0 <= k_char_index <= chars@.len(), transition_table@.len() == tt.len(),
                forall|j: int| 0 <= j < tt.len() ==> #[trigger] self.table(transition_table@[j]),
                forall|j: int| 0 <= j < chars@.len() ==> (#[trigger] chars@[j]).wf(),
                self.filled(tt[0], transition_table@, a, chars@, k_char_index as int),
                self.filled_at(tt[0], transition_table@[k_char_index as int], a, chars@, k_char_index as int),
                self.running(transition_table@, a, chars@, k_char_index as int),
            decreases chars@.len() - k_char_index"""),
                Loop(f"""                invariant {COMMON},
                    0 <= k_state_index <= end_state_index == a,
                    forall|s: int| 0 <= s < k_state_index ==> #[trigger] self.advanced_row(l, upper_table@[0], s, chr, b),
                    all_states_are_empty == (forall|s: int, f: int| 0 <= s < k_state_index && 0 <= f < b ==> no_bits(#[trigger] at(l, s, f))),
                decreases end_state_index - k_state_index""",
                    start="                let ghost s_ = k_state_index as int; let ghost u1 = upper_table@[0];",
                    end="""                proof {
                    let u = upper_table@[0];
                    assert forall|s: int| 0 <= s < k_state_index implies #[trigger] self.advanced_row(l, u, s, chr, b) by {
                        if s < state_index { assert(self.advanced_row(l, u1, s, chr, b)); self.lemma_same(l, u1, u, s, chr, b); }
                    }
                }"""),
                Loop(f"""                    invariant {COMMON}, s_ == state_index, 0 <= s_ < a, self.table(u1),
                        forall|s: int, f: int| 0 <= s < n && s != s_ && 0 <= f < b ==> #[trigger] at(upper_table@[0], s, f) == at(u1, s, f),
                        forall|f: int, x: int| 0 <= f < fuzz_index ==> #[trigger] isset(at(upper_table@[0], s_, f), x) == image(ss, at(l, s_, f), class_of(chr), x),
                        all_fuzz_are_empty == (forall|f: int| 0 <= f < fuzz_index ==> no_bits(#[trigger] at(l, s_, f))),""",
                    start="""                    let ghost u2 = upper_table@[0]; proof { lemma_row(u2, n, b, n, s_, fuzz_index as int); lemma_row(l, n, b, n, s_, fuzz_index as int); }""",
                    end="""                    proof {
                        let u = upper_table@[0];
                        lemma_with_row(u2, u, n, b, n, s_, fuzz_index as int);
                        assert forall|f: int, x: int| 0 <= f < fuzz_index + 1 implies #[trigger] isset(at(u, s_, f), x) == image(ss, at(l, s_, f), class_of(chr), x) by {
                            if f < fuzz_index { assert(at(u, s_, f) == at(u2, s_, f)); }
                        }
                    }"""),
                Loop(f"""                    invariant {COMMON}, s_ == state_index, 0 <= s_ < a, self.table(u1), self.table(u3),
                        0 <= k_fuzz_index <= end_fuzz_index == b - 1,
                        forall|s: int, f: int| 0 <= s < n && s != s_ && 0 <= f < b ==> #[trigger] at(upper_table@[0], s, f) == at(u1, s, f),
                        forall|f: int| k_fuzz_index < f < b ==> #[trigger] at(upper_table@[0], s_, f) == at(u3, s_, f),
                        forall|f: int, x: int| 0 <= f < b ==> #[trigger] isset(at(u3, s_, f), x) == image(ss, at(l, s_, f), class_of(chr), x),
                        self.advanced_row(l, upper_table@[0], s_, chr, k_fuzz_index + 1),
                        fuzz_superset.blocks@.len() == blocks_for(n), fuzz_superset.size == (),
                        forall|x: int| #[trigger] isset(fuzz_superset.blocks@, x) ==> has(upper_table@[0], s_, k_fuzz_index as int, x),
                    decreases end_fuzz_index - k_fuzz_index""",
                    before="""                let ghost u3 = upper_table@[0];
                proof {
                    lemma_zeros(blocks_for(n) as nat);
                    assert forall|x: int| !isset(fuzz_superset.blocks@, x) by {}
                    assert forall|f: int, x: int| 0 <= f < 1 && #[trigger] self.next_rows(l, s_, chr, f, x) implies has(u3, s_, f, x) by { assert(isset(at(u3, s_, 0), x)); }
                }""",
                    start="""                    let ghost u4 = upper_table@[0]; let ghost f_ = k_fuzz_index as int; let ghost sup = fuzz_superset.blocks@;
                    proof { lemma_row(u4, n, b, n, s_, f_ + 1); lemma_row(l, n, b, n, s_, f_); lemma_unit(fuzz_superset); }""",
                    end="""                    proof {
                        let u = upper_table@[0];
                        lemma_with_row(u4, u, n, b, n, s_, f_ + 1);
                        self.lemma_edit(l, u4, u, s_, chr, f_, sup);
                    }"""),
            ]),
        "fill_insertions": Fn(sig="""    requires self.wf(), self.table(*old(table)), n_start_states <= self.n(),
    ensures self.table(*final(table)), self.inserted(*old(table), *final(table), n_start_states as int),
        forall|w: Seq<Char>| #[trigger] self.between(*old(table), n_start_states as int, w) ==> self.correct(*final(table), n_start_states as int, w),""",
            start="        let ghost t0 = *table; let ghost n = self.n() as int; let ghost b = self.fuzz + 1;",
            loops=[Loop(after="""        proof { self.lemma_inserted(t0, *table, n_start_states as int); }""", start="            let ghost t2 = *table;", end="""            proof {
                assert forall|s: int| 0 <= s < state_index + 1 implies #[trigger] self.inserted_row(t0, *table, s, self.fuzz as int) by { if s < state_index { assert(self.inserted_row(t0, t2, s, self.fuzz as int)); } }
            }""", inv="""            invariant self.wf(), n == self.n(), b == self.fuzz + 1, self.table(t0), self.table(*table), n_start_states <= n, self.inserted(t0, *table, state_index as int),
                forall|s: int, f: int| state_index <= s < n && 0 <= f < b ==> #[trigger] at(*table, s, f) == at(t0, s, f),"""),
                   Loop("""                invariant self.wf(), n == self.n(), b == self.fuzz + 1, self.table(t0), self.table(*table), n_start_states <= n, self.table(t2),
                    forall|s: int, f: int| 0 <= s < state_index && 0 <= f < b ==> #[trigger] at(*table, s, f) == at(t2, s, f),
                    forall|s: int, f: int| state_index < s < n && 0 <= f < b ==> #[trigger] at(*table, s, f) == at(t0, s, f),
                    forall|f: int| fuzz_index < f < b ==> #[trigger] at(*table, state_index as int, f) == at(t0, state_index as int, f),
                    state_index < n_start_states, self.inserted_row(t0, *table, state_index as int, fuzz_index as int),""",
                start="""                let ghost t1 = *table; let ghost s = state_index as int;
                proof { lemma_row(t1, n, b, n, s, fuzz_index as int); lemma_row(t1, n, b, n, s, fuzz_index + 1); }""",
                end="""                proof {
                    lemma_with_row(t1, *table, n, b, n, s, fuzz_index + 1);
                    assert forall|f: int, x: int| 0 <= f < fuzz_index + 1 implies #[trigger] isset(at(*table, s, f + 1), x) == (isset(at(t0, s, f + 1), x) || image(self.states@, at(*table, s, f), CharBitset::LETTERS, x)) by {
                        assert(at(*table, s, f) == at(t1, s, f));
                        if f < fuzz_index { assert(at(*table, s, f + 1) == at(t1, s, f + 1)); }
                    }
                }""")]),
    })
    return m
