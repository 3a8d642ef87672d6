from build import Module, struct
from extract import Fn, Loop


def module():
    m = Module("bitset", "bitset.rs")
    S = m.src
    m.text("pub " + S.find("type", "Block").core + "\npub " + S.find("const", "BLOCK_BITS").core)
    m.text(r"""

// ---- bits of blocks

pub open spec fn bit(w: u32, i: int) -> bool { 0 <= i < 32 && (w & (1u32 << (i as u32))) != 0 }
/// Is the bit at index `i` set?
pub open spec fn isset(s: Seq<u32>, i: int) -> bool { 0 <= i < s.len() * 32 && bit(s[i / 32], i % 32) }
pub open spec fn no_bits(s: Seq<u32>) -> bool { forall|i: int| !isset(s, i) }
pub open spec fn zeros(n: nat) -> Seq<u32> { Seq::new(n, |i: int| 0u32) }
pub open spec fn blocks_for(n: int) -> int { (n + 31) / 32 }

pub proof fn lemma_bit_zero(i: int) ensures !bit(0, i) {
    let k = i as u32;
    assert(0u32 & (1u32 << k) == 0) by (bit_vector);
}
pub proof fn lemma_word_zero(w: u32)
    requires forall|i: int| !bit(w, i)
    ensures w == 0
{
    if w != 0 {
        let k = vstd::std_specs::bits::u32_trailing_zeros(w);
        vstd::std_specs::bits::axiom_u32_trailing_zeros(w);
        let kk = k as u32;
        assert(((w >> kk) & 1u32) == 1u32 && kk < 32 ==> (w & (1u32 << kk)) != 0) by (bit_vector);
        assert(bit(w, kk as int));
    }
}
pub proof fn lemma_zeros(n: nat) ensures no_bits(zeros(n)), zeros(n).len() == n {
    assert forall|i: int| !isset(zeros(n), i) by { lemma_bit_zero(i % 32); }
}
pub proof fn lemma_no_bits(s: Seq<u32>)
    ensures no_bits(s) <==> (forall|j: int| 0 <= j < s.len() ==> s[j] == 0)
{
    if no_bits(s) {
        assert forall|j: int| 0 <= j < s.len() implies s[j] == 0 by {
            assert forall|i: int| !bit(s[j], i) by { if 0 <= i < 32 { assert(!isset(s, j * 32 + i)); } }
            lemma_word_zero(s[j]);
        }
    } else {
        let i = choose|i: int| isset(s, i);
        lemma_bit_zero(i % 32);
    }
}
pub proof fn lemma_set_bit(w: u32, b: u32)
    requires b < 32
    ensures forall|i: int| #[trigger] bit(w | (1u32 << b), i) == (bit(w, i) || i == b),
        forall|i: int| #[trigger] bit(w & !(1u32 << b), i) == (bit(w, i) && i != b),
{
    assert forall|i: int| #[trigger] bit(w | (1u32 << b), i) == (bit(w, i) || i == b) by {
        let k = i as u32;
        assert(b < 32 && k < 32 ==> (((w | (1u32 << b)) & (1u32 << k)) != 0) == ((w & (1u32 << k)) != 0 || k == b)) by (bit_vector);
    }
    assert forall|i: int| #[trigger] bit(w & !(1u32 << b), i) == (bit(w, i) && i != b) by {
        let k = i as u32;
        assert(b < 32 && k < 32 ==> (((w & !(1u32 << b)) & (1u32 << k)) != 0) == ((w & (1u32 << k)) != 0 && k != b)) by (bit_vector);
    }
}
pub proof fn lemma_bit_ops(x: u32, y: u32)
    ensures
        forall|i: int| #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i)),
        forall|i: int| #[trigger] bit(x & y, i) == (bit(x, i) && bit(y, i)),
        forall|i: int| #[trigger] bit(x & !y, i) == (bit(x, i) && !bit(y, i)),
{
    assert forall|i: int| #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i)) by {
        let k = i as u32;
        assert((((x | y) & (1u32 << k)) != 0) == ((x & (1u32 << k)) != 0 || (y & (1u32 << k)) != 0)) by (bit_vector);
    }
    assert forall|i: int| #[trigger] bit(x & y, i) == (bit(x, i) && bit(y, i)) by {
        let k = i as u32;
        assert(k < 32 ==> (((x & y) & (1u32 << k)) != 0) == ((x & (1u32 << k)) != 0 && (y & (1u32 << k)) != 0)) by (bit_vector);
    }
    assert forall|i: int| #[trigger] bit(x & !y, i) == (bit(x, i) && !bit(y, i)) by {
        let k = i as u32;
        assert(k < 32 ==> (((x & !y) & (1u32 << k)) != 0) == ((x & (1u32 << k)) != 0 && !((y & (1u32 << k)) != 0))) by (bit_vector);
    }
}
/// Words with the same bits are equal
pub proof fn lemma_word_ext(x: u32, y: u32)
    requires forall|i: int| bit(x, i) == bit(y, i)
    ensures x == y
{
    lemma_bit_ops(x, y);
    lemma_bit_ops(y, x);
    lemma_word_zero(x & !y);
    lemma_word_zero(y & !x);
    assert((x & !y) == 0 && (y & !x) == 0 ==> x == y) by (bit_vector);
}
pub proof fn lemma_ext(s: Seq<u32>, t: Seq<u32>)
    requires s.len() == t.len(), forall|i: int| isset(s, i) == isset(t, i)
    ensures s == t
{
    assert forall|j: int| 0 <= j < s.len() implies s[j] == t[j] by {
        assert forall|i: int| bit(s[j], i) == bit(t[j], i) by {
            if 0 <= i < 32 { assert(isset(s, j * 32 + i) == isset(t, j * 32 + i)); }
        }
        lemma_word_ext(s[j], t[j]);
    }
    assert(s =~= t);
}
pub open spec fn subset(s: Seq<u32>, t: Seq<u32>) -> bool { forall|i: int| isset(s, i) ==> isset(t, i) }

// ---- unchecked accesses (assumed contracts)

pub trait BlockRange: Sized {
    spec fn from(self, len: nat) -> int;
    spec fn to(self, len: nat) -> int;
}
impl BlockRange for std::ops::RangeFull {
    open spec fn from(self, len: nat) -> int { 0 }
    open spec fn to(self, len: nat) -> int { len as int }
}
impl BlockRange for std::ops::Range<usize> {
    open spec fn from(self, len: nat) -> int { self.start as int }
    open spec fn to(self, len: nat) -> int { self.end as int }
}
#[verifier::external_body]
pub fn get_blocks_unchecked<'a, R: BlockRange + std::slice::SliceIndex<[Block], Output = [Block]>>(s: &'a [Block], range: R) -> (r: &'a [Block])
    requires 0 <= range.from(s@.len()) <= range.to(s@.len()) <= s@.len(),
    ensures r@ == s@.subrange(range.from(s@.len()), range.to(s@.len())),
{ unsafe { s.get_unchecked(range) } }
#[verifier::external_body]
pub fn get_blocks_unchecked_mut<'a, R: BlockRange + std::slice::SliceIndex<[Block], Output = [Block]>>(s: &'a mut [Block], range: R) -> (r: &'a mut [Block])
    requires 0 <= range.from(old(s)@.len()) <= range.to(old(s)@.len()) <= old(s)@.len(),
    ensures r@ == old(s)@.subrange(range.from(old(s)@.len()), range.to(old(s)@.len())),
        final(r)@.len() == r@.len(),
        final(s)@ == splice(old(s)@, range.from(old(s)@.len()), final(r)@),
{ unsafe { s.get_unchecked_mut(range) } }
#[verifier::external_body]
pub fn get_block_unchecked<'a>(s: &'a [Block], i: usize) -> (r: &'a Block)
    requires i < s@.len(),
    ensures *r == s@[i as int],
{ unsafe { s.get_unchecked(i) } }
#[verifier::external_body]
pub fn get_block_unchecked_mut<'a>(s: &'a mut [Block], i: usize) -> (r: &'a mut Block)
    requires i < old(s)@.len(),
    ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)),
{ unsafe { s.get_unchecked_mut(i) } }
#[verifier::external_body]
pub fn boxed_blocks(s: &[Block]) -> (r: Box<[Block]>) ensures r@ == s@ { s.into() }
/// A run-time assertion: it must not fail
pub fn rt_assert(b: bool) requires b {}

/// `s` with the part from `at` replaced by `t`
pub open spec fn splice(s: Seq<u32>, at: int, t: Seq<u32>) -> Seq<u32> {
    s.subrange(0, at) + t + s.subrange(at + t.len(), s.len() as int)
}
""")
    # --- traits for the sizes
    m.text(r"""
pub trait Index: Copy {
    type Range: BlockRange + std::slice::SliceIndex<[Block], Output = [Block]>;

    spec fn total(self) -> int;
    spec fn transposed(self, x: usize) -> Self;
    /// Position of the row `sub` in `len` blocks
    spec fn lo(self, sub: Self, len: nat) -> int;
    spec fn hi(self, sub: Self, len: nat) -> int;
    spec fn fits(self, sub: Self, len: nat) -> bool;
    proof fn lemma_fits(self, sub: Self, len: nat) requires self.fits(sub, len) ensures 0 <= self.lo(sub, len) <= self.hi(sub, len) <= len;

    fn total_size(&self) -> (r: usize) requires self.total() <= usize::MAX ensures r == self.total();
    fn transpose(&self, x: usize) -> (r: Self) ensures r == self.transposed(x);
    fn slice(&self, sub: Self) -> (r: Self::Range)
        requires exists|n: nat| #[trigger] self.fits(sub, n)
        ensures
            forall|n: nat| self.fits(sub, n) ==> #[trigger] r.from(n) == self.lo(sub, n),
            forall|n: nat| self.fits(sub, n) ==> #[trigger] r.to(n) == self.hi(sub, n);
}
""")
    ghost = {
        "()": r"""
    open spec fn total(self) -> int { 1 }
    open spec fn transposed(self, x: usize) -> Self { () }
    open spec fn lo(self, sub: Self, len: nat) -> int { 0 }
    open spec fn hi(self, sub: Self, len: nat) -> int { len as int }
    open spec fn fits(self, sub: Self, len: nat) -> bool { true }
    proof fn lemma_fits(self, sub: Self, len: nat) {}
""",
        "usize": r"""
    open spec fn total(self) -> int { self as int }
    open spec fn transposed(self, x: usize) -> Self { x }
    open spec fn lo(self, sub: Self, len: nat) -> int { self * sub }
    open spec fn hi(self, sub: Self, len: nat) -> int { self * (sub + 1) }
    open spec fn fits(self, sub: Self, len: nat) -> bool { self * (sub + 1) <= len && self * (sub + 1) <= usize::MAX && sub < usize::MAX }
    proof fn lemma_fits(self, sub: Self, len: nat) {
        assert(self * (sub + 1) == self * sub + self) by (nonlinear_arith);
        assert(0 <= self * sub) by (nonlinear_arith);
    }
""",
        "(usize, usize)": r"""
    open spec fn total(self) -> int { self.0 * self.1 }
    open spec fn transposed(self, x: usize) -> Self { (self.1, x) }
    open spec fn lo(self, sub: Self, len: nat) -> int { self.1 * (self.0 * sub.0 + sub.1) }
    open spec fn hi(self, sub: Self, len: nat) -> int { self.1 * (self.0 * sub.0 + sub.1) + self.1 }
    open spec fn fits(self, sub: Self, len: nat) -> bool {
        sub.1 < self.0 && self.0 * sub.0 + sub.1 <= usize::MAX && self.1 * (self.0 * sub.0 + sub.1) + self.1 <= len
        && self.1 * (self.0 * sub.0 + sub.1) + self.1 <= usize::MAX
    }
    proof fn lemma_fits(self, sub: Self, len: nat) {
        assert(0 <= self.1 * (self.0 * sub.0 + sub.1)) by (nonlinear_arith);
    }
""",
    }
    nl = {
        "usize": "proof { assert(forall|r: std::ops::Range<usize>, n: nat| #[trigger] r.from(n) == r.start && r.to(n) == r.end); let me = *self; assert(me * (sub + 1) == me * sub + me) by (nonlinear_arith); assert(0 <= me * sub) by (nonlinear_arith); }",
        "(usize, usize)": "proof { assert(forall|r: std::ops::Range<usize>, n: nat| #[trigger] r.from(n) == r.start && r.to(n) == r.end); assert(0 <= self.0 * sub.0 <= self.0 * sub.0 + sub.1) by (nonlinear_arith); assert(0 <= self.1 * (self.0 * sub.0 + sub.1)) by (nonlinear_arith); }",
    }
    for ty in ("()", "usize", "(usize, usize)"):
        rng = "std::ops::RangeFull" if ty == "()" else "std::ops::Range<usize>"
        total = Fn(ret=None)
        m.impl(f"impl Index for {ty}", {"total_size": total, "transpose": Fn(ret=None), "slice": Fn(ret=None, start=nl.get(ty, ""))},
               assoc=f"    type Range = {rng};\n", extra=ghost[ty])
    m.text(r"""
pub trait SplitIndex: Index + Copy {
    type OuterIndex: Index + Copy;
    type InnerIndex: Index + Copy;

    spec fn inner(self) -> Self::InnerIndex;
    spec fn outer_lo(self, x: Self::OuterIndex) -> int;
    spec fn outer_hi(self, x: Self::OuterIndex) -> int;
    spec fn outer_fits(self, x: Self::OuterIndex, len: nat) -> bool;
    proof fn lemma_outer_fits(self, x: Self::OuterIndex, len: nat) requires self.outer_fits(x, len) ensures 0 <= self.outer_lo(x) <= self.outer_hi(x) <= len;

    fn slice_outer(&self, x: Self::OuterIndex) -> (r: (Self::Range, Self::InnerIndex))
        requires exists|n: nat| #[trigger] self.outer_fits(x, n)
        ensures
            forall|n: nat| self.outer_fits(x, n) ==> #[trigger] r.0.from(n) == self.outer_lo(x),
            forall|n: nat| self.outer_fits(x, n) ==> #[trigger] r.0.to(n) == self.outer_hi(x),
            r.1 == self.inner();
}
""")
    m.impl("impl SplitIndex for usize", {"slice_outer": Fn(ret=None, start="proof { let n = choose|n: nat| #[trigger] self.outer_fits(x, n); assert(self.fits(x, n)); }")},
           assoc="    type OuterIndex = usize;\n    type InnerIndex = ();\n", extra=r"""
    open spec fn inner(self) -> () { () }
    open spec fn outer_lo(self, x: usize) -> int { self * x }
    open spec fn outer_hi(self, x: usize) -> int { self * (x + 1) }
    open spec fn outer_fits(self, x: usize, len: nat) -> bool { self.fits(x, len) }
    proof fn lemma_outer_fits(self, x: usize, len: nat) { self.lemma_fits(x, len); }
""")
    m.impl("impl SplitIndex for (usize, usize)", {"slice_outer": Fn(ret=None, start="proof { assert(0 <= self.0 * x) by (nonlinear_arith); assert(0 <= self.1 * (self.0 * x)) by (nonlinear_arith); assert(self.1 * (self.0 * x) + self.0 * self.1 >= self.0 * self.1) by (nonlinear_arith); }")},
           assoc="    type OuterIndex = usize;\n    type InnerIndex = usize;\n", extra=r"""
    open spec fn inner(self) -> usize { self.1 }
    open spec fn outer_lo(self, x: usize) -> int { self.1 * (self.0 * x) }
    open spec fn outer_hi(self, x: usize) -> int { self.1 * (self.0 * x) + self.0 * self.1 }
    open spec fn outer_fits(self, x: usize, len: nat) -> bool {
        self.0 * x <= usize::MAX && self.1 * (self.0 * x) + self.0 * self.1 <= len && self.1 * (self.0 * x) + self.0 * self.1 <= usize::MAX
    }
    proof fn lemma_outer_fits(self, x: usize, len: nat) {
        assert(0 <= self.1 * (self.0 * x)) by (nonlinear_arith);
        assert(0 <= self.0 * self.1) by (nonlinear_arith);
    }
""")
    m.fn("div_rem", Fn(sig="    requires d > 0\n    ensures r.0 == x / d, r.1 == x % d"))
    
    struct(m, "BitSet")
    struct(m, "BitSetRef", "#[derive(Clone, Copy)]\n")
    struct(m, "BitSetRefMut")
    struct(m, "Ones")
    m.text(r"""
pub type BitSet1D = BitSet<()>;
pub type BitSet2D = BitSet<usize>;
pub type BitSet3D = BitSet<(usize, usize)>;
pub type BitSetRef1D<'a> = BitSetRef<'a, ()>;
pub type BitSetRef2D<'a> = BitSetRef<'a, usize>;
pub type BitSetRefMut1D<'a> = BitSetRefMut<'a, ()>;
pub type BitSetRefMut2D<'a> = BitSetRefMut<'a, usize>;

impl<Idx: Index> BitSet<Idx> {
    /// The blocks of one row
    pub open spec fn row(self, index: Idx) -> Seq<u32> { self.blocks@.subrange(self.size.lo(index, self.blocks@.len()), self.size.hi(index, self.blocks@.len())) }
    pub open spec fn fits(self, index: Idx) -> bool { self.size.fits(index, self.blocks@.len()) }
    /// What remains of `self` when the blocks of a row are replaced
    pub open spec fn with_row(self, index: Idx, t: Seq<u32>) -> Seq<u32> { splice(self.blocks@, self.size.lo(index, self.blocks@.len()), t) }
}
""")
    m.impl("impl<Idx: Index> BitSet<Idx>", {
        "new": Fn(sig="""    requires outer_size.total() * blocks_for(inner_size as int) <= usize::MAX, outer_size.total() <= usize::MAX, 0 <= outer_size.total(),
    ensures r.blocks@ == zeros((outer_size.total() * blocks_for(inner_size as int)) as nat), r.size == outer_size.transposed(blocks_for(inner_size as int) as usize), no_bits(r.blocks@),""",
            rules=[("vec![0; $n].into_boxed_slice()", "boxed_zeros($n)", "allocation is done by a wrapper with an assumed contract"),
                   ("(rem > 0) as usize", "(if rem > 0 { 1usize } else { 0usize })", "cast of a bool")],
            at=[("let blocks_count", "before", "        proof { assert(block_size == blocks_for(inner_size as int)); lemma_zeros((outer_size.total() * blocks_for(inner_size as int)) as nat); assert(0 <= outer_size.total() * blocks_for(inner_size as int)) by (nonlinear_arith) requires 0 <= outer_size.total(), 0 <= blocks_for(inner_size as int); }")]),
        "slice": Fn(sig="""    requires self.fits(index)
    ensures r.blocks@ == self.row(index), r.size == (),""", start="        proof { self.size.lemma_fits(index, self.blocks@.len()); }"),
        "slice_mut": Fn(sig="""    requires old(self).fits(index)
    ensures r.blocks@ == old(self).row(index), r.size == (), final(r.blocks)@.len() == r.blocks@.len(),
        final(self).size == old(self).size, final(self).blocks@ == old(self).with_row(index, final(r.blocks)@), final(self).blocks@.len() == old(self).blocks@.len(),""",
            start="        proof { self.size.lemma_fits(index, self.blocks@.len()); }"),
        "borrow": Fn(sig="    ensures r.blocks@ == self.blocks@, r.size == self.size,"),
        "borrow_mut": Fn(sig="""    ensures r.blocks@ == old(self).blocks@, r.size == old(self).size,
        final(self).blocks@ == final(r.blocks)@, final(self).size == old(self).size,"""),
    })
    m.text(r"""
impl<'a, Idx: Index> BitSetRefMut<'a, Idx> {
    /// The blocks it refers to, as they are now
    pub open spec fn cur(self) -> Seq<u32> { self.blocks@ }
}
impl<'a> Ones<'a> {
    /// Is the bit `i` still to come?
    pub open spec fn left(self, i: int) -> bool {
        (self.offset <= i < self.offset + 32 && bit(self.block, i - self.offset)) || isset(self.remaining_blocks@, i - self.offset - 32)
    }
    pub open spec fn wf(self) -> bool { self.offset + 32 * (self.remaining_blocks@.len() + 1) <= usize::MAX }
    pub open spec fn measure(self) -> nat { (self.remaining_blocks@.len() * 0x1_0000_0000 + self.block) as nat }
}
pub proof fn lemma_ones(s: Seq<u32>)
    requires s.len() >= 1
    ensures forall|i: int| #[trigger] isset(s, i) == ((0 <= i < 32 && bit(s[0], i)) || isset(s.subrange(1, s.len() as int), i - 32))
{
    let t = s.subrange(1, s.len() as int);
    assert forall|i: int| #[trigger] isset(s, i) == ((0 <= i < 32 && bit(s[0], i)) || isset(t, i - 32)) by {
        if 32 <= i < s.len() * 32 { assert((i - 32) / 32 == i / 32 - 1); assert((i - 32) % 32 == i % 32); assert(t[i / 32 - 1] == s[i / 32]); }
        if i < 32 { assert(!isset(t, i - 32)); if 0 <= i { assert(i / 32 == 0 && i % 32 == i); } }
    }
}
pub proof fn lemma_lowest_bit(w: u32, r: u32)
    requires w != 0, r == vstd::std_specs::bits::u32_trailing_zeros(w)
    ensures r < 32, bit(w, r as int), forall|i: int| bit(w, i) ==> i >= r,
        forall|i: int| #[trigger] bit(w ^ (w & sub(0u32, w)), i) == (bit(w, i) && i != r), (w ^ (w & sub(0u32, w))) < w
{
    vstd::std_specs::bits::axiom_u32_trailing_zeros(w);
    assert(((w >> r) & 1u32) == 1u32 && r < 32 ==> (w & (1u32 << r)) != 0) by (bit_vector);
    assert forall|i: int| bit(w, i) implies i >= r by {
        let k = i as u32;
        assert(forall|k: u32| k < r ==> #[trigger] ((w >> k) & 1u32) == 0u32) ;
        if k < r { assert((w >> k) & 1u32 == 0u32); assert(k < 32 && (w >> k) & 1u32 == 0u32 ==> (w & (1u32 << k)) == 0) by (bit_vector); }
    }
    assert(bit(w, r as int));
    let t = w & sub(0u32, w);
    // the lowest bit
    assert forall|i: int| #[trigger] bit(w ^ (w & sub(0u32, w)), i) == (bit(w, i) && i != r) by {
        let k = i as u32;
        if 0 <= i < 32 {
            assert(w << sub(32, r) == 0 || r == 0);
            assert((w << sub(32, r) == 0 || r == 0) && (w & (1u32 << r)) != 0 && r < 32 && k < 32
                ==> (((w ^ (w & sub(0u32, w))) & (1u32 << k)) != 0) == ((w & (1u32 << k)) != 0 && k != r)) by (bit_vector);
        }
    }
    assert(w != 0 ==> (w ^ (w & sub(0u32, w))) < w) by (bit_vector);
}
pub proof fn lemma_subset(s: Seq<u32>, t: Seq<u32>)
    requires s.len() == t.len()
    ensures subset(s, t) == (forall|j: int| 0 <= j < s.len() ==> (s[j] | t[j]) == t[j])
{
    if subset(s, t) {
        assert forall|j: int| 0 <= j < s.len() implies (s[j] | t[j]) == t[j] by {
            lemma_bit_ops(s[j], t[j]);
            assert forall|i: int| bit(s[j] | t[j], i) == bit(t[j], i) by { if bit(s[j], i) { assert(isset(s, j * 32 + i)); assert(isset(t, j * 32 + i)); } }
            lemma_word_ext(s[j] | t[j], t[j]);
        }
    }
    if forall|j: int| 0 <= j < s.len() ==> (s[j] | t[j]) == t[j] {
        assert forall|i: int| isset(s, i) implies isset(t, i) by { lemma_bit_ops(s[i / 32], t[i / 32]); assert((s[i / 32] | t[i / 32]) == t[i / 32]); }
    }
}
pub proof fn lemma_subset2(s: Seq<u32>, t: Seq<u32>)
    requires s.len() >= t.len()
    ensures (forall|j: int| 0 <= j < t.len() ==> (s[j] & !t[j]) == 0) ==> (forall|i: int| i < t.len() * 32 && isset(s, i) ==> isset(t, i))
{
    if forall|j: int| 0 <= j < t.len() ==> (s[j] & !t[j]) == 0 {
        assert forall|i: int| i < t.len() * 32 && isset(s, i) implies isset(t, i) by { lemma_bit_ops(s[i / 32], t[i / 32]); lemma_bit_zero(i % 32); assert((s[i / 32] & !t[i / 32]) == 0); }
    }
}
pub proof fn lemma_resize(s: Seq<u32>, t: Seq<u32>, n: int)
    requires n >= 0, t.len() == blocks_for(n), forall|i: int| isset(s, i) ==> i < n,
        forall|j: int| 0 <= j < t.len() && j < s.len() ==> t[j] == s[j],
        forall|j: int| s.len() <= j < t.len() ==> t[j] == 0,
    ensures forall|i: int| isset(t, i) == isset(s, i)
{
    assert forall|i: int| isset(t, i) == isset(s, i) by {
        if isset(s, i) { assert(i / 32 < t.len()); }
        if isset(t, i) { if i / 32 >= s.len() { lemma_bit_zero(i % 32); } }
    }
}
impl BitSet<(usize, usize)> {
    pub open spec fn fits2d(self, index: usize) -> bool { self.size.outer_fits(index, self.blocks@.len()) }
    pub open spec fn row2d(self, index: usize) -> Seq<u32> { self.blocks@.subrange(self.size.outer_lo(index), self.size.outer_hi(index)) }
}
pub proof fn lemma_2d(size: (usize, usize), x: usize, len: nat)
    requires size.outer_fits(x, len)
    ensures size.total() * x == size.outer_lo(x), size.total() * (x + 1) == size.outer_hi(x), 0 <= size.total() <= usize::MAX, 0 <= size.outer_lo(x), x + 1 <= usize::MAX || size.total() == 0,
        size.outer_hi(x) <= usize::MAX,
{
    assert(size.0 * size.1 * x == size.1 * (size.0 * x)) by (nonlinear_arith);
    assert(size.0 * size.1 * (x + 1) == size.1 * (size.0 * x) + size.0 * size.1) by (nonlinear_arith);
    assert(0 <= size.1 * (size.0 * x)) by (nonlinear_arith);
    assert(0 <= size.0 * size.1) by (nonlinear_arith);
    if size.0 * size.1 >= 1 { assert(size.0 * size.1 * (x + 1) >= x + 1) by (nonlinear_arith) requires size.0 * size.1 >= 1; }
}
#[verifier::external_body]
pub fn blocks_from<'a>(s: &'a [Block], k: usize) -> (r: &'a [Block]) requires k <= s@.len() ensures r@ == s@.subrange(k as int, s@.len() as int) { &s[k..] }
#[verifier::external_body]
pub fn boxed_zeros(n: usize) -> (r: Box<[Block]>) ensures r@ == zeros(n as nat) { vec![0; n].into_boxed_slice() }
impl<Idx: Index> Clone for BitSet<Idx> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.blocks@ == self.blocks@, r.size == self.size { BitSet { blocks: self.blocks.clone(), size: self.size } }
}
""")
    
    EMPTY_INV = """        invariant i_ <= self.blocks@.len(), all_ == (forall|j: int| 0 <= j < i_ ==> self.blocks@[j] == 0),
        decreases self.blocks@.len() - i_"""
    EMPTY = lambda b="self.blocks@": Fn(sig=f"    ensures r == no_bits({b})", start="        proof { lemma_no_bits(self.blocks@); }", loops=[Loop(EMPTY_INV)])
    CONTAINS = lambda b="self.blocks@": Fn(sig=f"    requires index / 32 < self.blocks@.len()\n    ensures r == isset({b}, index as int)",
        rules=[("(1 << bit)", "(1u32 << bit)", "type of a literal"), ("b & (1u32 << bit) != 0", "(*b & (1u32 << bit)) != 0", "reference operand")])
    ONES = lambda b="self.blocks@": Fn(sig=f"    requires self.blocks@.len() >= 1, self.blocks@.len() * 32 <= usize::MAX\n    ensures r.wf(), forall|i: int| #[trigger] r.left(i) == isset({b}, i)",
        rules=[("&self.blocks[1..]", "blocks_from(&*self.blocks, 1)", "a subslice is taken by a wrapper with an assumed contract")],
        start="        proof { lemma_ones(self.blocks@); }")
    m.impl("impl<'a, Idx: Index> BitSetRef<'a, Idx>", {
        "is_empty": EMPTY(),
        "contains": CONTAINS(),
        "is_subset": Fn(sig="    requires self.blocks@.len() == other.blocks@.len()\n    ensures r == subset(self.blocks@, other.blocks@)",
            start="        proof { lemma_subset(self.blocks@, other.blocks@); }",
            loops=[Loop("""        invariant i_ <= self.blocks@.len() == other.blocks@.len(), all_ == (forall|j: int| 0 <= j < i_ ==> (self.blocks@[j] | other.blocks@[j]) == other.blocks@[j]),
        decreases self.blocks@.len() - i_""")]),
        "ones": ONES(),
        "to_bitset": Fn(sig="    ensures r.blocks@ == self.blocks@, r.size == self.size", rules=[("self.blocks.into()", "boxed_blocks(self.blocks)", "copying is done by a wrapper with an assumed contract")]),
    })
    SLICE = lambda b="self.blocks@": Fn(sig=f"""    requires self.size.outer_fits(index, self.blocks@.len())
    ensures r.blocks@ == {b}.subrange(self.size.outer_lo(index), self.size.outer_hi(index)), r.size == self.size.inner(),""",
        start="        proof { self.size.lemma_outer_fits(index, self.blocks@.len()); }")
    m.impl("impl<Idx: SplitIndex> BitSetRef<'_, Idx>", {"slice": SLICE()})
    OP = lambda f, eq="": Fn(sig=f"""    requires old(self).blocks@.len() >= other.blocks@.len()
    ensures final(final(self).blocks)@ == final(old(self).blocks)@, final(self).size == old(self).size, final(self).blocks@.len() == old(self).blocks@.len(),
        forall|i: int| #[trigger] isset(final(self).blocks@, i) == ({f}),""",
        loops=[Loop(f"""        invariant final(self.blocks)@ == final(old(self).blocks)@, old(self).blocks@.len() >= other.blocks@.len(), self.size == old(self).size, self.blocks@.len() == old(self).blocks@.len(),
            forall|j: int| i <= j < self.blocks@.len() ==> self.blocks@[j] == old(self).blocks@[j],
            forall|j: int, k: int| 0 <= j < i ==> #[trigger] bit(self.blocks@[j], k) == (BITS),""",
            start="            proof { lemma_bit_ops(self.blocks@[i as int], other.blocks@[i as int]); }")])
    def op(f, bits):
        x = OP(f)
        x.loops[0].inv = x.loops[0].inv.replace("BITS", bits)
        return x
    OB, XB = "bit(old(self).blocks@[j], k)", "bit(other.blocks@[j], k)"
    OH, XH = "isset(old(self).blocks@, i)", "isset(other.blocks@, i)"
    UPD = lambda f, bits: Fn(sig=f"""    requires index / 32 < old(self).blocks@.len()
    ensures final(final(self).blocks)@ == final(old(self).blocks)@, final(self).size == old(self).size, final(self).blocks@.len() == old(self).blocks@.len(),
        forall|i: int| #[trigger] isset(final(self).blocks@, i) == ({f}),""",
        rules=[("1 << bit", "1u32 << bit", "type of a literal")],
        start="        proof { lemma_set_bit(self.blocks@[index as int / 32], (index % 32) as u32); }")
    m.impl("impl<'a, Idx: Index> BitSetRefMut<'a, Idx>", {
        "reborrow": Fn(sig="    ensures r.blocks@ == self.cur(), r.size == self.size, final(self.blocks)@ == self.cur()"),
        "is_empty": EMPTY("self.cur()"),
        "contains": CONTAINS("self.cur()"),
        "ones": ONES("self.cur()"),
        "remove": UPD("isset(old(self).blocks@, i) && i != index", ""),
        "insert": UPD("isset(old(self).blocks@, i) || i == index", ""),
        "clear": Fn(sig="""    ensures final(final(self).blocks)@ == final(old(self).blocks)@, final(self).size == old(self).size, final(self).blocks@ == zeros(old(self).blocks@.len()), no_bits(final(self).blocks@)""",
            loops=[Loop("""        invariant final(self.blocks)@ == final(old(self).blocks)@, i_ <= self.blocks@.len(), self.size == old(self).size, self.blocks@.len() == old(self).blocks@.len(), forall|j: int| 0 <= j < i_ ==> self.blocks@[j] == 0,
        decreases self.blocks@.len() - i_""", after="        proof { lemma_zeros(old(self).blocks@.len()); assert(self.blocks@ =~= zeros(old(self).blocks@.len())); }")]),
        "is_subset": Fn(sig="    requires self.blocks@.len() >= other.blocks@.len()\n    ensures r ==> forall|i: int| i < other.blocks@.len() * 32 ==> (isset(self.cur(), i) ==> isset(other.blocks@, i))",
            loops=[Loop("""        invariant i <= n_ == other.blocks@.len() <= self.blocks@.len(), all_ == (forall|j: int| 0 <= j < i ==> (self.blocks@[j] & !other.blocks@[j]) == 0),
        decreases n_ - i""", after="        proof { lemma_subset2(self.blocks@, other.blocks@); }")]),
        "union_with": op(f"{OH} || {XH}", f"{OB} || {XB}"),
        "difference_with": op(f"{OH} && !{XH}", f"{OB} && !{XB}"),
        "intersect_with": op(f"{OH} && (i >= other.blocks@.len() * 32 || {XH})", f"{OB} && {XB}"),
        "copy_from": Fn(sig="""    requires old(self).blocks@.len() == other.blocks@.len()
    ensures final(final(self).blocks)@ == final(old(self).blocks)@, final(self).size == old(self).size, final(self).blocks@ == other.blocks@,""",
            loops=[Loop("""        invariant final(self.blocks)@ == final(old(self).blocks)@, self.blocks@.len() == old(self).blocks@.len() == other.blocks@.len(), self.size == old(self).size,
            forall|j: int| 0 <= j < i ==> self.blocks@[j] == other.blocks@[j],""", after="        proof { assert(self.blocks@ =~= other.blocks@); }")]),
    })
    m.impl("impl<Idx: SplitIndex> BitSetRefMut<'_, Idx>", {
        "slice": SLICE("self.cur()"),
        "slice_mut": Fn(sig="""    requires old(self).size.outer_fits(index, old(self).blocks@.len())
    ensures r.blocks@ == old(self).blocks@.subrange(old(self).size.outer_lo(index), old(self).size.outer_hi(index)), r.size == old(self).size.inner(),
        final(final(self).blocks)@ == final(old(self).blocks)@,
        final(self).size == old(self).size, final(r.blocks)@.len() == r.blocks@.len(), final(self).blocks@.len() == old(self).blocks@.len(),
        final(self).blocks@ == splice(old(self).blocks@, old(self).size.outer_lo(index), final(r.blocks)@),""",
            start="        proof { self.size.lemma_outer_fits(index, self.blocks@.len()); }"),
    })
    m.impl("impl BitSet<(usize, usize)>", {
        "slice2d": Fn(sig="""    requires self.fits2d(index), index < usize::MAX
    ensures r.blocks@ == self.row2d(index), r.size == self.size.1,""", start="        proof { lemma_2d(self.size, index, self.blocks@.len()); }"),
        "slice2d_mut": Fn(sig="""    requires old(self).fits2d(index), index < usize::MAX
    ensures r.blocks@ == old(self).row2d(index), r.size == old(self).size.1, final(r.blocks)@.len() == r.blocks@.len(),
        final(self).size == old(self).size, final(self).blocks@.len() == old(self).blocks@.len(),
        final(self).blocks@ == splice(old(self).blocks@, old(self).size.outer_lo(index), final(r.blocks)@),""", start="        proof { lemma_2d(self.size, index, self.blocks@.len()); }"),
    })
    m.impl("impl BitSetRef<'_, ()>", {
        "resize": Fn(sig="""    requires self.blocks@.len() >= 1, self.blocks@.len() * 32 <= usize::MAX, forall|i: int| isset(self.blocks@, i) ==> i < new_size,
    ensures forall|i: int| isset(r.blocks@, i) == isset(self.blocks@, i), r.blocks@.len() == blocks_for(new_size as int),""",
            loops=[Loop("""        invariant all_, it_.wf(), forall|i: int| #[trigger] it_.left(i) ==> i < new_size,
        decreases it_.measure() + (if more_ { 1int } else { 0 })"""),
                   Loop("""        invariant i_ <= self.blocks@.len(), i_ <= new_bitset.blocks@.len(), new_bitset.blocks@.len() == blocks_for(new_size as int),
            forall|j: int| 0 <= j < i_ ==> new_bitset.blocks@[j] == self.blocks@[j],
            forall|j: int| i_ <= j < new_bitset.blocks@.len() ==> new_bitset.blocks@[j] == 0,
        decreases self.blocks@.len() - i_""", after="        proof { lemma_resize(self.blocks@, new_bitset.blocks@, new_size as int); }")]),
    })
    m.impl("impl<'a> Iterator for Ones<'a>", {
        "next": Fn(sig="""    requires old(self).wf()
    ensures final(self).wf(), final(self).measure() <= old(self).measure(),
        r is None ==> (forall|i: int| !old(self).left(i)) && (forall|i: int| !final(self).left(i)),
        r is Some ==> old(self).left(r->0 as int) && (forall|i: int| #[trigger] old(self).left(i) ==> i >= r->0) && final(self).measure() < old(self).measure()
            && (forall|i: int| #[trigger] final(self).left(i) == (old(self).left(i) && i != r->0)),""",
            rules=[("Self::Item", "usize", "associated type"), ("&self.remaining_blocks[1..]", "blocks_from(self.remaining_blocks, 1)", "a subslice is taken by a wrapper with an assumed contract"),
                   ("(0 as Block)", "0u32", "type of a literal")],
            loops=[Loop("""        invariant self.wf(), forall|i: int| #![trigger self.left(i)] #![trigger old(self).left(i)] self.left(i) == old(self).left(i), self.measure() <= old(self).measure(),
        decreases self.remaining_blocks@.len()""", start="            let ghost pre_ = *self; proof { assert forall|i: int| !bit(0u32, i) by { lemma_bit_zero(i); } if self.remaining_blocks@.len() > 0 { lemma_ones(self.remaining_blocks@); } }",
                end="            proof { assert forall|i: int| #[trigger] self.left(i) == pre_.left(i) by { assert(isset(pre_.remaining_blocks@, i - pre_.offset - 32) == isset(pre_.remaining_blocks@, i - self.offset)); } }")],
            at=[("let t =", "before", "        let ghost pre_ = *self; proof { lemma_lowest_bit(self.block, vstd::std_specs::bits::u32_trailing_zeros(self.block)); }"),
                ("self.block ^= t;", "after", """        proof {
            let w = pre_.block;
            let z = vstd::std_specs::bits::u32_trailing_zeros(w) as int;
            assert(sub(0u32, w) == (0x1_0000_0000 - w) as u32) by { assert(w != 0 ==> sub(0u32, w) == sub(0xffff_ffffu32, sub(w, 1u32))) by (bit_vector); }
            assert(self.block == w ^ (w & sub(0u32, w)));
            assert forall|i: int| #[trigger] self.left(i) == (pre_.left(i) && i != pre_.offset + z) by { }
            assert(pre_.left(pre_.offset + z));
            assert forall|i: int| #[trigger] pre_.left(i) implies i >= pre_.offset + z by { }
        }""")]),
    }, new_header="impl<'a> Ones<'a>")
    return m
