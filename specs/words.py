import re
from build import Module, struct
from extract import Fn, Loop, LostAnchor

FROM = "the trait function is verified as an inherent one of another name"


def module():
    m = Module("words", "words.rs")
    m.text(r"""
use super::bitset::{bit, lemma_bit_ops, lemma_bit_zero, rt_assert};

// ---- the meaning of symbols and classes (from the documentation)

pub spec const SYMBOLS: int = 28;
pub spec const PUNCT: int = 26;
pub spec const SPACE: int = 27;
/// The symbol that a character stands for
pub open spec fn symbol(c: char) -> int {
    if 'a' <= c <= 'z' { c as int - 'a' as int }
    else if 'A' <= c <= 'Z' { c as int - 'A' as int }
    else if c == ' ' || c == '_' { SPACE }
    else { PUNCT }
}
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r == lower(*c);
/// Is there a character with the symbol `i` between those two (in lower case)?
pub open spec fn in_range(low: char, high: char, i: int) -> bool { exists|c: char| lower(low) <= c <= lower(high) && symbol(c) == i }
/// Is the symbol `i` one of the letters?
pub open spec fn is_letter(i: int) -> bool { 0 <= i < 26 }
pub assume_specification [std::char::from_u32] (n: u32) -> (r: Option<char>)
    ensures r is Some == (n < 0xD800 || 0xDFFF < n <= 0x10FFFF), r is Some ==> (r->0) as u32 == n;

impl Char {
    pub open spec fn wf(self) -> bool { self.0 < 28 }
    pub open spec fn sym(self) -> int { self.0 as int }
}
impl CharBitset {
    /// Does the class contain the symbol `i`?
    pub open spec fn has_sym(self, i: int) -> bool { bit(self.0, i) }
    /// Only symbols are contained
    pub open spec fn wf(self) -> bool { forall|i: int| self.has_sym(i) ==> 0 <= i < SYMBOLS }
}
pub proof fn lemma_single(c: u8)
    requires c < 32
    ensures forall|i: int| #[trigger] bit(1u32 << c, i) == (i == c), forall|i: int| #[trigger] bit(1u32 << (c as u32), i) == (i == c)
{
    assert forall|i: int| #[trigger] bit(1u32 << c, i) == (i == c) by {
        let k = i as u32;
        assert(c < 32 && k < 32 ==> (((1u32 << c) & (1u32 << k)) != 0) == (k == c)) by (bit_vector);
    }
    assert(1u32 << c == 1u32 << (c as u32)) by (bit_vector) requires c < 32;
}
pub proof fn lemma_or_all(x: u32)
    ensures forall|y: u32, i: int| #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i))
{
    assert forall|y: u32, i: int| #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i)) by { lemma_bit_ops(x, y); }
}
pub proof fn lemma_consts()
    ensures forall|i: int| !CharBitset::EMPTY.has_sym(i),
        forall|i: int| #[trigger] CharBitset::LETTERS.has_sym(i) == is_letter(i),
        forall|i: int| #[trigger] CharBitset::ALL.has_sym(i) == (0 <= i < SYMBOLS),
        CharBitset::EMPTY.wf(), CharBitset::LETTERS.wf(), CharBitset::ALL.wf(),
{
    assert forall|i: int| !CharBitset::EMPTY.has_sym(i) by { lemma_bit_zero(i); }
    assert forall|i: int| #[trigger] CharBitset::LETTERS.has_sym(i) == is_letter(i) by {
        let k = i as u32;
        assert(k < 32 ==> ((0x3ff_ffffu32 & (1u32 << k)) != 0) == (k < 26)) by (bit_vector);
    }
    assert forall|i: int| #[trigger] CharBitset::ALL.has_sym(i) == (0 <= i < 28) by {
        let k = i as u32;
        assert(k < 32 ==> ((0xfff_ffffu32 & (1u32 << k)) != 0) == (k < 28)) by (bit_vector);
    }
}
pub proof fn lemma_invert(w: u32)
    ensures forall|i: int| #[trigger] bit(w ^ CharBitset::LETTERS.0, i) == (bit(w, i) != is_letter(i))
{
    assert forall|i: int| #[trigger] bit(w ^ CharBitset::LETTERS.0, i) == (bit(w, i) != is_letter(i)) by {
        let k = i as u32;
        assert(k < 32 ==> (((w ^ 0x3ff_ffffu32) & (1u32 << k)) != 0) == (((w & (1u32 << k)) != 0) != (k < 26))) by (bit_vector);
    }
}
pub proof fn lemma_intersecting(x: u32, y: u32)
    ensures ((x & y) != 0) == (exists|i: int| bit(x, i) && bit(y, i))
{
    lemma_bit_ops(x, y);
    if (x & y) != 0 {
        if forall|i: int| !bit(x & y, i) { super::bitset::lemma_word_zero(x & y); }
        let i = choose|i: int| bit(x & y, i);
        assert(bit(x, i) && bit(y, i));
    } else {
        assert forall|i: int| !(bit(x, i) && bit(y, i)) by { lemma_bit_zero(i); assert(!bit(x & y, i)); }
    }
}
""")
    struct(m, "Char", "#[derive(PartialEq, Eq, Copy, Clone, Structural)]\n")
    struct(m, "CharBitset", "#[derive(PartialEq, Eq, Copy, Clone, Structural)]\n")

    def consts(header):
        def fold(x):
            return str((1 << int(x.group(1))) - 1)
        t = "".join("    " + c.core + "\n" for b in m.src.impls(header) for c in b.children if c.kind == "const")
        t2 = re.sub(r"\(1 << (\d+)\) - 1", fold, t)
        if t2 != t:
            m.log.append((f"{m.name}::{header}", "(1 << n) - 1", "its value", 1, "constants are folded"))
        return t2

    m.impl("impl Char", {
        "as_index": Fn(sig="    requires self.wf()\n    ensures r == self.sym(), r < 28", start="        proof { }"),
        "from_index": Fn(sig="    requires i < 28\n    ensures r.sym() == i, r.wf()", rules=[("(i as usize)", "i", "cast to the same type")]),
    }, extra=consts("impl Char"))
    m.impl("impl From<char> for Char", {"from": Fn(sig="    ensures r.sym() == symbol(c), r.wf()", vis=None, ret="r",
        rules=[("fn from(c: char) -> Self", "fn from_unicode(c: char) -> Self", FROM),
               ("($x).try_into().unwrap()", "($x) as u8", "a cast that can't fail (it is proved to be in range)")])},
        new_header="impl Char", prefix="Char::From<char>")
    m.impl("impl CharBitset", {
        "from_range": Fn(sig="    ensures forall|i: int| #[trigger] r.has_sym(i) == in_range(low, high, i)",
            rules=[("for $ic in $x..=$y {", "let lo_: char = $x; let hi_: char = $y; let mut n_: u32 = lo_ as u32; while n_ <= hi_ as u32 { let next_ = std::char::from_u32(n_); n_ += 1; if next_.is_none() { continue; } let $ic = next_.unwrap();", "iteration over a range of characters is written out as a loop over their numbers"),
                   ("let mut x = 0;", "let mut x: u32 = 0;", "type of a literal"), ("CharBitset::from(c)", "CharBitset::from_unicode(c)", FROM)],
            loops=[Loop("""            invariant lo_ == lower(low), hi_ == lower(high), lo_ as u32 <= n_, n_ <= 0x110000,
                forall|i: int| #[trigger] bit(x, i) == (exists|c: char| lo_ <= c && (c as u32) < n_ && c <= hi_ && symbol(c) == i),
            decreases 0x110000 - n_""")], start="        proof { assert forall|i: int| !bit(0u32, i) by { lemma_bit_zero(i); } }",
            at=[("x |= CharBitset::from_unicode(c).0;", "before", "            let ghost x0_ = x; let ghost c_ = c; proof { lemma_or_all(x0_); }"),
                ("x |= CharBitset::from_unicode(c).0;", "after", """            proof {
                lemma_or_all(x0_);
                assert forall|i: int| #[trigger] bit(x, i) == (bit(x0_, i) || i == symbol(c_)) by { }
                assert forall|i: int| #[trigger] bit(x, i) == (exists|c: char| lo_ <= c && (c as u32) < n_ && c <= hi_ && symbol(c) == i) by {
                    if bit(x, i) {
                        if bit(x0_, i) { let c = choose|c: char| lo_ <= c && (c as u32) < n_ - 1 && c <= hi_ && symbol(c) == i; assert((c as u32) < n_ && symbol(c) == i); }
                        else { assert(lo_ <= c_ && (c_ as u32) < n_ && c_ <= hi_ && symbol(c_) == i); }
                    }
                    if exists|c: char| lo_ <= c && (c as u32) < n_ && c <= hi_ && symbol(c) == i {
                        let c = choose|c: char| lo_ <= c && (c as u32) < n_ && c <= hi_ && symbol(c) == i;
                        if c as u32 != n_ - 1 { assert((c as u32) < n_ - 1); } else { assert(c == c_); }
                    }
                }
            }""")]),
        "invert": Fn(sig="    ensures forall|i: int| #[trigger] final(self).has_sym(i) == (old(self).has_sym(i) != is_letter(i))", start="        proof { lemma_invert(self.0); }"),
        "union_with": Fn(sig="    ensures forall|i: int| #[trigger] final(self).has_sym(i) == (old(self).has_sym(i) || other.has_sym(i))", start="        proof { lemma_bit_ops(self.0, other.0); }"),
        "difference_with": Fn(sig="    ensures forall|i: int| #[trigger] final(self).has_sym(i) == (old(self).has_sym(i) && !other.has_sym(i))", start="        proof { lemma_bit_ops(self.0, other.0); }"),
        "is_intersecting": Fn(sig="    ensures r == (exists|i: int| self.has_sym(i) && other.has_sym(i))", start="        proof { lemma_intersecting(self.0, other.0); assert((exists|i: int| bit(self.0, i) && bit(other.0, i)) == (exists|i: int| self.has_sym(i) && other.has_sym(i))) by { if exists|i: int| bit(self.0, i) && bit(other.0, i) { let i = choose|i: int| bit(self.0, i) && bit(other.0, i); assert(self.has_sym(i) && other.has_sym(i)); } } }"),
        "contains": Fn(sig="    requires chr.wf()\n    ensures r == self.has_sym(chr.sym())", rules=[("chr.into()", "CharBitset::from_char(chr)", FROM)]),
    }, extra=consts("impl CharBitset"))
    m.impl("impl From<Char> for CharBitset", {"from": Fn(sig="    requires c.wf()\n    ensures forall|i: int| #![trigger r.has_sym(i)] #![trigger bit(r.0, i)] r.has_sym(i) == (i == c.sym())", vis=None,
        rules=[("fn from(c", "fn from_char(c", FROM), ("1 << c.0", "1u32 << c.0", "type of a literal")], start="        proof { lemma_single(c.0); }")}, new_header="impl CharBitset", prefix="CharBitset::From<Char>")
    m.impl("impl From<&Char> for CharBitset", {"from": Fn(sig="    requires c.wf()\n    ensures forall|i: int| #![trigger r.has_sym(i)] #![trigger bit(r.0, i)] r.has_sym(i) == (i == c.sym())", vis=None,
        rules=[("fn from(c", "fn from_char_ref(c", FROM), ("1 << c.0", "1u32 << c.0", "type of a literal")], start="        proof { lemma_single(c.0); }")}, new_header="impl CharBitset", prefix="CharBitset::From<&Char>")
    m.impl("impl From<char> for CharBitset", {"from": Fn(sig="    ensures forall|i: int| #![trigger r.has_sym(i)] #![trigger bit(r.0, i)] r.has_sym(i) == (i == symbol(c))", vis=None,
        rules=[("fn from(c: char)", "fn from_unicode(c: char)", FROM), ("let c: Char = c.into();", "let c: Char = Char::from_unicode(c);", FROM), ("c.into()", "CharBitset::from_char(c)", FROM)])}, new_header="impl CharBitset", prefix="CharBitset::From<char>")
    return m
