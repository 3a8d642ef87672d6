"""The letters of a word"""
from build import Module
from extract import Fn, Loop

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
WRITTEN = "the adaptors of the iterator are written out as the loops they perform"
LIB = "a function of a library is a wrapper with an assumed contract"
UNI = "the trait function is verified as an inherent one of another name"


def module():
    m = Module("spelling", "words.rs")
    m.text(r"""
use super::words::*;
use super::wordlist::*;

// ---- what the libraries for Unicode know

/// The compatibility decomposition (NFKD) of a text
pub uninterp spec fn decomposed(s: Seq<char>) -> Seq<char>;
/// Is it an accent?
pub uninterp spec fn mark(c: char) -> bool;
pub uninterp spec fn upper_case(c: char) -> Seq<char>;
pub uninterp spec fn lower_case(c: char) -> Seq<char>;
pub open spec fn is_ascii(c: char) -> bool { (c as u32) < 128 }
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ascii(#[trigger] s[i]) }
pub open spec fn ascii_upper(c: char) -> char { if 'a' <= c <= 'z' { (c as u32 - 32) as u32 as char } else { c } }
/// They leave ASCII alone, apart from the case of the letters
#[verifier::external_body]
pub proof fn axiom_ascii()
    ensures forall|s: Seq<char>| all_ascii(s) ==> #[trigger] decomposed(s) == s, forall|c: char| is_ascii(c) ==> !#[trigger] mark(c),
        forall|c: char| is_ascii(c) ==> #[trigger] upper_case(c) == seq![ascii_upper(c)], forall|c: char| is_ascii(c) ==> #[trigger] lower_case(c) == seq![lower(c)]
{ unimplemented!() }

#[verifier::external_body]
pub fn decompose(s: &str) -> (r: Vec<char>) ensures r@ == decomposed(s@) { unimplemented!() }
#[verifier::external_body]
pub fn is_mark(c: char) -> (r: bool) ensures r == mark(c) { unimplemented!() }
#[verifier::external_body]
pub fn to_upper(c: char) -> (r: Vec<char>) ensures r@ == upper_case(c) { unimplemented!() }
#[verifier::external_body]
pub fn to_lower(c: char) -> (r: Vec<char>) ensures r@ == lower_case(c) { unimplemented!() }
#[verifier::external_body]
pub fn copy_text(s: &str) -> (r: Box<str>) ensures r@ == s@ { s.into() }
pub fn one_of(a: char) -> (r: Vec<char>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); proof { assert(v@ =~= seq![a]); } v }
pub fn two_of(a: char, b: char) -> (r: Vec<char>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); proof { assert(v@ =~= seq![a, b]); } v }

// ---- the letters of a text (from the documentation)

/// Ligatures are written out
pub open spec fn written_out(c: char) -> Seq<char> { if c == '\u{e6}' || c == '\u{c6}' { seq!['a', 'e'] } else if c == '\u{153}' || c == '\u{152}' { seq!['o', 'e'] } else { seq![c] } }
/// What the parts become, one after the other
pub open spec fn each<T>(s: Seq<char>, f: spec_fn(char) -> Seq<T>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { each(s.drop_last(), f) + f(s.last()) } }
pub open spec fn letter_of(c: char) -> Seq<Char> { seq![Char(symbol(c) as u8)] }
/// The case is ignored
pub open spec fn of_upper(c: char) -> Seq<Char> { each(lower_case(c), |d: char| letter_of(d)) }
pub open spec fn of_any_case(c: char) -> Seq<Char> { each(upper_case(c), |d: char| of_upper(d)) }
/// Accents are dropped
pub open spec fn of_part(c: char) -> Seq<Char> { if mark(c) { Seq::empty() } else { each(written_out(c), |d: char| of_any_case(d)) } }
pub open spec fn spelled(s: Seq<char>) -> Seq<Char> { each(decomposed(s), |c: char| of_part(c)) }

pub proof fn lemma_each<T>(s: Seq<char>, f: spec_fn(char) -> Seq<T>, n: int)
    requires 0 <= n < s.len()
    ensures each(s.take(n + 1), f) == each(s.take(n), f) + f(s[n])
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_each_one<T>(c: char, f: spec_fn(char) -> Seq<T>)
    ensures each(seq![c], f) == f(c)
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(each(seq![c].drop_last(), f) =~= Seq::<T>::empty()); assert(each(seq![c], f) =~= f(c)); }
/// Every character of an ASCII text counts as its symbol, whatever its case
pub proof fn lemma_ascii(s: Seq<char>)
    requires all_ascii(s)
    ensures spelled(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] spelled(s)[i]).sym() == symbol(s[i])
    decreases s.len()
{
    axiom_ascii();
    let f = |c: char| of_part(c);
    if s.len() > 0 {
        let d = s.drop_last();
        let c = s.last();
        lemma_ascii(d);
        assert(is_ascii(s[s.len() - 1]));
        assert(is_ascii(c));
        let u = ascii_upper(c);
        let f1 = |d: char| of_any_case(d);
        let f2 = |d: char| of_upper(d);
        let f3 = |d: char| letter_of(d);
        lemma_each_one(c, f1);
        lemma_each_one(u, f2);
        lemma_each_one(lower(u), f3);
        assert(symbol(lower(u)) == symbol(c));
        assert(of_part(c) == letter_of(lower(u)));
        assert(spelled(s) == each(d, f) + of_part(c));
        assert(spelled(d) == each(d, f));
    }
}
""")
    body = "let c = cs_[i_]; i_ += 1; "
    m.impl("impl Word", {"new": Fn(sig="""    ensures r.text@ == text@, r.tranche == tranche, r.score == score, r.chars@ == spelled(text@).push(Char::WORD_END)""", attrs=ATTRS,
        rules=[("text: text.into()", "text: copy_text(text)", LIB),
               ("text.chars().nfkd().filter(|$ia: &char| $e).flat_map(|$ib: char| { let $ic: Box<dyn Iterator<Item = char>> = $x; $r }).flat_map(|$id| $eb).flat_map(|$ie| $ec).map(|$if| $ed).chain(std::iter::once($ee)).collect()",
                "{ let as_ = decompose(text); let mut out_: Vec<Char> = Vec::new(); let mut i_: usize = 0; while i_ < as_.len() { let $ia = &as_[i_]; if $e { let $ib = as_[i_]; let $ic = $x; let bs_ = $r; let mut j_: usize = 0; while j_ < bs_.len() { let $id = bs_[j_]; let cs_ = $eb; let mut k_: usize = 0; while k_ < cs_.len() { let $ie = cs_[k_]; let ds_ = $ec; let mut l_: usize = 0; while l_ < ds_.len() { let $if = ds_[l_]; out_.push($ed); l_ += 1; } k_ += 1; } j_ += 1; } } i_ += 1; } out_.push($ee); out_ }", WRITTEN),
               ("is_combining_mark($e)", "is_mark($e)", LIB), ("c.to_uppercase()", "to_upper(c)", LIB), ("c.to_lowercase()", "to_lower(c)", LIB),
               ("Box::new(std::iter::once($x).chain(std::iter::once($y)))", "two_of($x, $y)", WRITTEN), ("Box::new(std::iter::once($x))", "one_of($x)", WRITTEN),
               ("(c).into()", "Char::from_unicode(c)", UNI)],
        start="        let ghost f0 = |c: char| of_part(c); let ghost f1 = |d: char| of_any_case(d); let ghost f2 = |d: char| of_upper(d); let ghost f3 = |d: char| letter_of(d);",
        loops=[Loop("            invariant i_ <= as_@.len(), as_@ == decomposed(text@), out_@ == each(as_@.take(i_ as int), f0)\n            decreases as_@.len() - i_", before="            proof { assert(as_@.take(0) =~= Seq::empty()); assert(out_@ =~= each(as_@.take(0), f0)); }",
                    start="            let ghost o0 = out_@;", end="            proof { lemma_each(as_@, f0, i_ - 1); assert(out_@ =~= o0 + f0(as_@[i_ - 1])); }", after="            proof { assert(as_@.take(i_ as int) =~= as_@); }"),
               Loop("            invariant j_ <= bs_@.len(), bs_@ == written_out(as_@[i_ as int]), out_@ == o0 + each(bs_@.take(j_ as int), f1)\n            decreases bs_@.len() - j_", before="            proof { assert(bs_@.take(0) =~= Seq::empty()); assert(out_@ =~= o0 + each(bs_@.take(0), f1)); }",
                    start="            let ghost o1 = out_@;", end="            proof { lemma_each(bs_@, f1, j_ - 1); assert(out_@ =~= o0 + each(bs_@.take(j_ as int), f1)); }", after="            proof { assert(bs_@.take(j_ as int) =~= bs_@); }"),
               Loop("            invariant k_ <= cs_@.len(), cs_@ == upper_case(bs_@[j_ as int]), out_@ == o1 + each(cs_@.take(k_ as int), f2)\n            decreases cs_@.len() - k_", before="            proof { assert(cs_@.take(0) =~= Seq::empty()); assert(out_@ =~= o1 + each(cs_@.take(0), f2)); }",
                    start="            let ghost o2 = out_@;", end="            proof { lemma_each(cs_@, f2, k_ - 1); assert(out_@ =~= o1 + each(cs_@.take(k_ as int), f2)); }", after="            proof { assert(cs_@.take(k_ as int) =~= cs_@); }"),
               Loop("            invariant l_ <= ds_@.len(), ds_@ == lower_case(cs_@[k_ as int]), out_@ == o2 + each(ds_@.take(l_ as int), f3)\n            decreases ds_@.len() - l_", before="            proof { assert(ds_@.take(0) =~= Seq::empty()); assert(out_@ =~= o2 + each(ds_@.take(0), f3)); }",
                    start="            let ghost o3 = out_@;", end="            proof { lemma_each(ds_@, f3, l_ - 1); assert(out_@ =~= o2 + each(ds_@.take(l_ as int), f3)); }", after="            proof { assert(ds_@.take(l_ as int) =~= ds_@); }")])})
    return m
