"""What a file of words becomes"""
from build import Module
import re
from extract import Fn, Loop, LostAnchor

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(60)]"
WRITTEN = "the adaptors of the iterator are written out as the loop they perform"
LIB = "a function of a library is a wrapper with an assumed contract"
FILE = "opening and decompressing a file is a wrapper with an assumed contract"


def module():
    m = Module("loading", "words.rs")
    order = [f for f in re.findall(r"pub (\w+):", m.src.find("struct", "Word").core)]
    if order[:2] != ["tranche", "chars"]:
        raise LostAnchor("Word: the derived order is another one")
    m.text(r"""
use super::words::*;
use super::wordlist::*;
use super::spelling::*;

// ---- the library

pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
pub fn byte_len(s: &String) -> (r: usize) ensures r == bytes(s@) { s.len() }
pub open spec fn first_tab(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 || s[0] == '\t' { 0 } else { 1 + first_tab(s.skip(1)) } }
#[verifier::external_body]
pub fn split_at_tab(s: &String) -> (r: Option<(&str, &str)>)
    ensures r is Some == (first_tab(s@) < s@.len()), r is Some ==> (r->0).0@ == s@.take(first_tab(s@)) && (r->0).1@ == s@.skip(first_tab(s@) + 1)
{ s.split_once('\t') }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn value(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { (10 * value(s.drop_last()) + (s.last() as u32 - '0' as u32)) as nat } }
pub open spec fn unsigned(s: Seq<char>) -> Option<u32> {
    if s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i])) && value(s) <= u32::MAX { Some(value(s) as u32) } else { None }
}
pub open spec fn count_of(s: Seq<char>) -> Option<u32> { if s.len() > 0 && s[0] == '+' { unsigned(s.skip(1)) } else { unsigned(s) } }
pub struct NoNumber;
#[verifier::external_body]
pub fn parse_count(s: &str) -> (r: std::result::Result<u32, NoNumber>) ensures r is Ok == count_of(s@) is Some, r is Ok ==> r->Ok_0 == count_of(s@)->0 { s.parse().map_err(|_| NoNumber) }
#[verifier::external_body]
pub fn characters(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn characters_of(s: &Box<str>) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn is_text(s: &Box<str>, t: &str) -> (r: bool) ensures r == (s@ == t@) { s.as_ref() == t }
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c <= 'z');
#[verifier::external_body]
pub fn score_for(n: usize) -> (r: u32) ensures r == (if n > u32::MAX { u32::MAX as usize } else { n }) { n.try_into().unwrap_or(u32::MAX) }

/// Comparing letters one after the other
pub open spec fn not_behind(a: Seq<Char>, b: Seq<Char>) -> bool
    decreases a.len()
{ a.len() == 0 || b.len() > 0 && (a[0].sym() < b[0].sym() || a[0].sym() == b[0].sym() && not_behind(a.skip(1), b.skip(1))) }
/// By frequency class, then by letters
pub open spec fn in_order(v: Seq<Word>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).tranche < (#[trigger] v[j]).tranche || v[i].tranche == v[j].tranche && not_behind(v[i].chars@, v[j].chars@)
}
#[verifier::external_body]
pub fn sort_list(v: &mut Vec<Word>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), in_order(final(v)@) { unimplemented!() }

#[verifier::external_body]
pub struct Error { it: std::io::Error }
impl Error {
    pub uninterp spec fn bad_text(&self) -> bool;
    #[verifier::external_body]
    pub fn is_bad_text(&self) -> (r: bool) ensures r == self.bad_text() { unimplemented!() }
}
/// What a file has to say: its lines (or None for one that is no text), until its end, or until reading fails
pub struct Content { pub lines: Seq<Option<Seq<char>>>, pub fails: bool }
pub uninterp spec fn content(name: Seq<char>) -> Content;
#[verifier::external_body]
pub struct Lines { it: usize }
impl Lines {
    pub uninterp spec fn rest(&self) -> Content;
    /// (when reading fails, it can fail again, any number of times)
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<std::result::Result<String, Error>>)
        ensures
            final(self).rest().fails == old(self).rest().fails,
            r is None ==> old(self).rest().lines.len() == 0 && !old(self).rest().fails,
            r is Some && r->0 is Ok ==> old(self).rest().lines.len() > 0 && old(self).rest().lines[0] == Some(r->0->Ok_0@) && final(self).rest().lines == old(self).rest().lines.skip(1),
            r is Some && r->0 is Err && r->0->Err_0.bad_text() ==> old(self).rest().lines.len() > 0 && old(self).rest().lines[0] is None && final(self).rest().lines == old(self).rest().lines.skip(1),
            r is Some && r->0 is Err && !r->0->Err_0.bad_text() ==> old(self).rest().lines.len() == 0 && old(self).rest().fails && final(self).rest() == old(self).rest(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn open_lines(name: &str) -> (r: Lines) ensures r.rest() == content(name@) { unimplemented!() }

// ---- what the file becomes

pub open spec fn has_count(l: Seq<char>) -> bool { first_tab(l) < l.len() && count_of(l.take(first_tab(l))) is Some }
pub open spec fn word_of(l: Seq<char>) -> Seq<char> { if has_count(l) { l.skip(first_tab(l) + 1) } else { l } }
pub open spec fn score_of(l: Seq<char>) -> int { if has_count(l) { count_of(l.take(first_tab(l)))->0 as int } else if bytes(l) * 200 > u32::MAX { u32::MAX as int } else { bytes(l) * 200int } }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' }
pub open spec fn has_digit(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i]) }
/// The words which the filters drop
pub open spec fn excluded(s: Seq<char>) -> bool { spelled(s).len() <= 1 && s != "I"@ && s != "a"@ || has_digit(s) }
pub open spec fn kept(l: Option<Seq<char>>) -> bool { l is Some && !excluded(word_of(l->0)) }
pub open spec fn kept_lines(ls: Seq<Option<Seq<char>>>) -> Seq<Seq<char>>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else if kept(ls.last()) { kept_lines(ls.drop_last()).push(ls.last()->0) } else { kept_lines(ls.drop_last()) } }
/// The sizes of the classes: each is half as large again as the one before
pub open spec fn size(k: nat) -> nat
    decreases k
{ if k == 0 { 10000 } else { size((k - 1) as nat) * 3 / 2 } }
/// How many words come before class k
pub open spec fn total(k: nat) -> nat
    decreases k
{ if k == 0 { 0 } else { total((k - 1) as nat) + size((k - 1) as nat) + 1 } }
pub open spec fn in_class(n: int, k: nat) -> bool { total(k) <= n < total(k + 1) }
/// The n-th entry: words that aren't of small letters only belong to the next class
pub open spec fn entry(w: Word, l: Seq<char>, n: int) -> bool {
    &&& w.text@ == word_of(l) && w.chars@ == spelled(word_of(l)).push(Char::WORD_END) && w.score == score_of(l)
    &&& exists|k: nat| #[trigger] in_class(n, k) && w.tranche == k + if plain(word_of(l)) { 0int } else { 1int }
}
pub open spec fn entries(ws: Seq<Word>, ls: Seq<Seq<char>>) -> bool { ws.len() == ls.len() && forall|i: int| 0 <= i < ls.len() ==> entry(#[trigger] ws[i], ls[i], i) }

pub proof fn lemma_kept(ls: Seq<Option<Seq<char>>>, n: int)
    requires 0 <= n < ls.len()
    ensures kept_lines(ls.take(n + 1)) == (if kept(ls[n]) { kept_lines(ls.take(n)).push(ls[n]->0) } else { kept_lines(ls.take(n)) })
{ assert(ls.take(n + 1).drop_last() =~= ls.take(n)); }
pub proof fn lemma_size(k: nat)
    ensures size(k) >= 10000, total(k) >= 2 * (size(k) - 10000)
    decreases k
{ if k > 0 { lemma_size((k - 1) as nat); } }
pub proof fn lemma_classes(k: nat, n: nat)
    requires n <= k
    ensures total(n) <= total(k), size(n) <= size(k)
    decreases k
{ if n < k { lemma_classes((k - 1) as nat, n); } }
/// A class that a list of that many words reaches
pub proof fn lemma_few_classes(k: nat)
    requires total(k) < 0x8000_0000
    ensures k < 40, size(k) < 0x8000_0000
{
    lemma_size(k);
    if k >= 40 { lemma_classes(k, 40); assert(total(40) > 0x8000_0000) by (compute); }
}
""")
    chars = "{ let cs_ = %s; let mut %s: bool = %s; let mut n_: usize = 0; while n_ < cs_.len() { let $i = cs_[n_]; if %s { %s = %s; } n_ += 1; } %s }"
    m.fn("load_wordlist", Fn(sig="""    requires content(filename@).lines.len() < 0x8000_0000
    ensures r is Ok, in_order(r->Ok_0@),
        exists|ws: Seq<Word>| #[trigger] entries(ws, kept_lines(content(filename@).lines)) && ws.to_multiset() == r->Ok_0@.to_multiset()""", attrs=ATTRS,
        rules=[("pub fn load_wordlist<P>(filename: P) -> Result<Vec<Word>, ()> where P: AsRef<std::path::Path> + Clone,", "pub fn load_wordlist(filename: &str) -> std::result::Result<Vec<Word>, ()>", FILE),
               ("let file = $e; let bufread = $ea; let unzip: Box<dyn BufRead> = $x;", "let mut unzip = open_lines(filename);", FILE),
               ("return None;", "continue;", WRITTEN),
               ("Some(word)", "out_.push(word);", WRITTEN),
               ("unzip.lines().take_while(|$ia| $e).filter_map(|$ib| $x).filter_map(|$ic| { $z }).collect()",
                "{ let mut out_: Vec<Word> = Vec::new(); loop { let next_ = unzip.next(); if next_.is_none() { break; } let read_ = next_.unwrap(); let stop_ = { let $ia = &read_; !($e) }; if stop_ { break; } let $ib = read_; let line_ = $x; if line_.is_none() { continue; } let $ic = line_.unwrap(); $z } out_ }", WRITTEN),
               ("unzip.lines().filter_map(|$ib| $x).filter_map(|$ic| { $z }).collect()",
                "{ let mut out_: Vec<Word> = Vec::new(); loop { let next_ = unzip.next(); if next_.is_none() { break; } let read_ = next_.unwrap(); let $ib = read_; let line_ = $x; if line_.is_none() { continue; } let $ic = line_.unwrap(); $z } out_ }", WRITTEN),
               ("e.kind() != io::ErrorKind::InvalidData", "!e.is_bad_text()", LIB),
               ("line.as_ref()", "line.as_str()", LIB), ("line.split_once('\\t')", "split_at_tab(&line)", LIB), ("$i.parse::<u32>()", "parse_count($i)", LIB),
               ("line.len()", "byte_len(&line)", LIB), ("let mut score = $e.try_into().unwrap_or(u32::MAX);", "let mut score: u32 = score_for($e);", LIB),
               ("word.text.as_ref() != $e", "!is_text(&word.text, $e)", LIB),
               ("word.chars().all(|$i| $x)", chars % ("characters(word)", "all_", "true", "!($x)", "all_", "false", "all_"), WRITTEN),
               ("word.text.contains(|$i| ($x..=$y).contains(&$j))", chars % ("characters_of(&word.text)", "some_", "false", "$x <= $j && $j <= $y", "some_", "true", "some_"), WRITTEN),
               ("println!($e, $ea, $eb, $ec,)", "let _ = ($ea, $eb, $ec)", "output is left out, but for what it computes"), ("println!($e)", "()", "output is left out"), ("wordlist.sort()", "sort_list(&mut wordlist)", LIB)],
        start="        let ghost all = content(filename@).lines;",
        loops=[Loop("""            invariant
                unzip.rest().lines.len() <= all.len(), unzip.rest().lines == all.skip(all.len() - unzip.rest().lines.len()), entries(out_@, kept_lines(all.take(all.len() - unzip.rest().lines.len()))),
                word_count == out_@.len(), tranche_size == size(tranche as nat), total(tranche as nat) + tranche_count == word_count, tranche_count <= tranche_size,
                skipped_count + word_count <= all.len() - unzip.rest().lines.len(),
            ensures unzip.rest().lines.len() == 0
            decreases unzip.rest().lines.len()""",
                    before="            proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::empty()); }",
                    start="""            let ghost c0 = all.len() - unzip.rest().lines.len();
            let ghost o0 = out_@;
            proof { if c0 < all.len() { lemma_kept(all, c0); assert(all.skip(c0).skip(1) =~= all.skip(c0 + 1)); assert(all.skip(c0)[0] == all[c0]); } lemma_few_classes(tranche as nat); }""",
                    after="            proof { assert(all.take(all.len() as int) =~= all); }"),
               Loop("            invariant n_ <= cs_@.len(), cs_@ == word@, all_ == (forall|i: int| 0 <= i < n_ ==> 'a' <= #[trigger] cs_@[i] <= 'z')\n            decreases cs_@.len() - n_", after="            proof { assert(all_ == plain(word@)); }"),
               Loop("            invariant n_ <= cs_@.len(), cs_@ == word.text@, some_ == (exists|i: int| 0 <= i < n_ && is_digit(#[trigger] cs_@[i]))\n            decreases cs_@.len() - n_", after="            proof { assert(some_ == has_digit(word.text@)); }")],
        at=[("word_count += 1;", "after", "            "+"proof { assert(in_class(out_@.len() as int, tranche as nat)); }")]))
    return m
