"""What a parsed text denotes: from the trees that the generated parser makes to syntax trees"""
import re
from build import Module, SRC, struct
from extract import Fn, Loop, LostAnchor

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
WRITTEN = "the adaptors of the iterator are written out as the loop they perform"
TEXT = "a query of the parser's tree is a wrapper with an assumed contract"

# The rules of the grammar that the shape of the trees (`well`) is read off. Another grammar: nothing is assumed of its trees, so nothing is proved
GRAMMAR = {
    "number": "@{ ASCII_DIGIT+ }", "punctuation": "_{ \"'\" }", "whitespace": '_{ "_" }',
    "character": "{ ASCII_ALPHA | dot | punctuation | whitespace }", "dot": '{ "." }',
    "letter_range": '{ ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }', "invert": '{ "^" }', "class": '{ "[" ~ invert? ~ (letter_range | character)+ ~ "]" }',
    "letter": "{ ASCII_ALPHA }", "anagram_body": "{ letter+ }",
    "sequence": "{ (repeat | term)+ }", "alternatives": '{ sequence ~ ("|" ~ sequence)+ }',
    "anagram": '{ "<" ~ anagram_body ~ ">" }', "superanagram": '{ "<" ~ anagram_body ~ "+>" }', "subanagram": '{ "<" ~ anagram_body ~ "->" }',
    "transadd": '{ "<" ~ anagram_body ~ "+" ~ number ~ ">" }', "transdelete": '{ "<" ~ anagram_body ~ "-" ~ number ~ ">" }',
    "substring": '{ "(" ~ term+ ~ ":^)" }', "subset": '{ "(" ~ term+ ~ ":-)" }', "superset": '{ "(" ~ term+ ~ ":+)" }',
    "repeat_optional": '{ term ~ "?" }', "repeat_any": '{ term ~ "*" }', "repeat_oneormore": '{ term ~ "+" }',
    "repeat_atmost": '{ term ~ "{," ~ number ~ "}" }', "repeat_exact": '{ term ~ "{" ~ number ~ "}" }', "repeat_atleast": '{ term ~ "{" ~ number ~ ",}" }',
    "repeat_range": '{ term ~ "{" ~ number ~ "," ~ number ~ "}" }',
    "subexpression": "_{ (alternatives | sequence) }", "group": '_{ "(" ~ subexpression ~ ")" }',
    "term": "_{ class | dot | group | anagram | superanagram | subanagram | transadd | transdelete | substring | subset | superset | number | character }",
    "repeat": "_{ repeat_optional | repeat_any | repeat_oneormore | repeat_atmost | repeat_exact | repeat_atleast | repeat_range }",
    "option_word_boundaries": '{ "!_" }', "option_punctuation": "{ \"!'\" }", "option_fuzz": '{"!" ~ number }',
    "option": "_{ option_word_boundaries | option_punctuation | option_fuzz }", "expression": "{ SOI ~ subexpression ~ (option)* ~ EOI }",
}
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|\w+|\S')


def grammar():
    """The rules, by name"""
    text = open(SRC + "noodle_grammar.pest").read()
    out, name, depth, body = {}, None, 0, []
    toks = [t for line in text.splitlines() for t in TOKEN.findall(line if '"//"' in line else re.sub(r"^\s*//.*|\s//\s[^\"]*$", "", line))]
    i = 0
    while i < len(toks):
        if i + 1 < len(toks) and toks[i + 1] == "=" and re.match(r"\w+$", toks[i]):
            name, j = toks[i], i + 2
            while toks[j] != "{":
                j += 1
            depth, k = 0, j
            while True:
                depth += {"{": 1, "}": -1}.get(toks[k], 0)
                if depth == 0:
                    break
                k += 1
            out[name] = toks[i + 2:k + 1]
            i = k + 1
        else:
            i += 1
    return out


def module():
    m = Module("syntax", "parser.rs")
    rules = grammar()
    for name, body in GRAMMAR.items():
        if rules.get(name) != TOKEN.findall(body):
            raise LostAnchor(f"noodle_grammar.pest: the rule {name} is not the one which the contracts are written for")
    names = [n for n in rules if n not in ("WHITESPACE", "COMMENT")]
    m.text("""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::construct::{lemma_lang, terms_of};
use super::anagrams::{parsed, a_bank};

/// The rules of the grammar, as pest_derive numbers them (silent ones included)
#[derive(PartialEq, Eq, Copy, Clone, Structural)]
pub enum Rule { EOI, """ + ", ".join(names) + r""" }
/// What the generated parser returns: a rule, the text that it covers, and what it consists of
#[verifier::ext_equal]
pub struct Tree { pub rule: Rule, pub text: Seq<char>, pub inner: Seq<Tree> }

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pair<'i, R> { it: std::marker::PhantomData<&'i R> }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pairs<'i, R> { it: std::marker::PhantomData<&'i R> }
impl<'i> Pair<'i, Rule> {
    pub uninterp spec fn tree(self) -> Tree;
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self.tree().rule { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs<'i, Rule>) ensures r.trees() == self.tree().inner { unimplemented!() }
}
impl<'i> Pairs<'i, Rule> {
    /// Those that are still to come
    pub uninterp spec fn trees(self) -> Seq<Tree>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair<'i, Rule>>)
        ensures old(self).trees().len() == 0 ==> r is None && final(self).trees() == old(self).trees(),
            old(self).trees().len() > 0 ==> r is Some && r->0.tree() == old(self).trees()[0] && final(self).trees() == old(self).trees().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_is(&self, rule: Rule) -> (r: bool) ensures r == (self.trees().len() > 0 && self.trees()[0].rule == rule) { unimplemented!() }
}
#[verifier::external_body]
pub fn first_char(p: &Pair<Rule>) -> (r: char) requires p.tree().text.len() > 0 ensures r == p.tree().text[0] { unimplemented!() }
#[verifier::external_body]
pub fn chars_of(p: &Pair<Rule>) -> (r: Vec<char>) ensures r@ == p.tree().text { unimplemented!() }
#[verifier::external_body]
pub fn number_of(p: &Pair<Rule>) -> (r: usize) requires digits(p.tree().text) ensures r == number(p.tree().text) { unimplemented!() }

// ---- the trees that the grammar allows

pub open spec fn digits(v: Seq<char>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> '0' <= #[trigger] v[i] <= '9' }
pub open spec fn decimal(v: Seq<char>) -> int
    decreases v.len()
{
    if v.len() == 0 { 0 } else { 10 * decimal(v.drop_last()) + (v.last() as int - '0' as int) }
}
/// A number, or the largest one if it is larger
pub open spec fn number(v: Seq<char>) -> usize { if decimal(v) <= usize::MAX { decimal(v) as usize } else { usize::MAX } }
pub open spec fn alphabetic(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn is_term(r: Rule) -> bool { match r {
    Rule::character | Rule::dot | Rule::class | Rule::subset | Rule::superset | Rule::substring | Rule::group | Rule::sequence | Rule::number | Rule::alternatives => true,
    Rule::repeat_optional | Rule::repeat_any | Rule::repeat_oneormore | Rule::repeat_exact | Rule::repeat_atmost | Rule::repeat_atleast | Rule::repeat_range => true,
    Rule::anagram | Rule::subanagram | Rule::superanagram | Rule::transadd | Rule::transdelete => true,
    _ => false,
} }
pub open spec fn is_repeat(r: Rule) -> bool { match r { Rule::repeat_optional | Rule::repeat_any | Rule::repeat_oneormore | Rule::repeat_exact | Rule::repeat_atmost | Rule::repeat_atleast | Rule::repeat_range => true, _ => false } }
pub open spec fn member(t: Tree) -> bool { (t.rule is character && t.text.len() > 0) || (t.rule is letter_range && t.text.len() > 0 && alphabetic(t.text[0]) && alphabetic(t.text.last())) }
pub open spec fn members(ts: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ts.len() ==> member(#[trigger] ts[i]) }
/// Without a leading `^`
pub open spec fn listed(ts: Seq<Tree>) -> Seq<Tree> { if inverted(ts) { ts.skip(1) } else { ts } }
pub open spec fn inverted(ts: Seq<Tree>) -> bool { ts.len() > 0 && ts[0].rule is invert }
pub open spec fn a_body(t: Tree) -> bool { t.rule is anagram_body && forall|i: int| 0 <= i < t.inner.len() ==> (#[trigger] t.inner[i]).text.len() > 0 && alphabetic(t.inner[i].text[0]) }
pub open spec fn numeral(t: Tree) -> bool { t.rule is number && digits(t.text) }
pub open spec fn numbers_needed(r: Rule) -> int { match r { Rule::repeat_exact | Rule::repeat_atmost | Rule::repeat_atleast => 1, Rule::repeat_range => 2, _ => 0 } }
pub open spec fn well(t: Tree) -> bool
    decreases t
{
    match t.rule {
        Rule::character => t.text.len() > 0,
        Rule::dot => true,
        Rule::class => members(listed(t.inner)),
        Rule::number => digits(t.text),
        Rule::subset | Rule::superset | Rule::substring | Rule::group | Rule::sequence | Rule::alternatives => forall|i: int| 0 <= i < t.inner.len() ==> is_term((#[trigger] t.inner[i]).rule) && well(t.inner[i]),
        Rule::anagram | Rule::subanagram | Rule::superanagram => t.inner.len() == 1 && a_body(t.inner[0]),
        Rule::transadd | Rule::transdelete => t.inner.len() == 2 && a_body(t.inner[0]) && numeral(t.inner[1]),
        _ => is_repeat(t.rule) ==> t.inner.len() == 1 + numbers_needed(t.rule) && is_term(t.inner[0].rule) && well(t.inner[0]) && forall|i: int| 1 <= i < t.inner.len() ==> numeral(#[trigger] t.inner[i]),
    }
}
pub open spec fn is_option(t: Tree) -> bool { match t.rule { Rule::option_word_boundaries | Rule::option_punctuation | Rule::EOI => true, Rule::option_fuzz => t.inner.len() > 0 && forall|i: int| 0 <= i < t.inner.len() ==> numeral(#[trigger] t.inner[i]), _ => false } }
pub open spec fn options_ok(ts: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ts.len() ==> is_option(#[trigger] ts[i]) }
pub open spec fn well_expression(t: Tree) -> bool { t.rule is expression && t.inner.len() > 0 && (t.inner[0].rule is sequence || t.inner[0].rule is alternatives) && well(t.inner[0]) && options_ok(t.inner.skip(1)) }

// ---- what they denote (from the documentation)

/// A member of a class names a symbol: itself, or those between two letters
pub open spec fn names_sym(t: Tree, s: int) -> bool { if t.rule is letter_range { symbol(t.text[0]) <= s <= symbol(t.text.last()) } else { s == symbol(t.text[0]) } }
pub open spec fn some_names(ts: Seq<Tree>, s: int) -> bool { exists|i: int| 0 <= i < ts.len() && names_sym(#[trigger] ts[i], s) }
/// A class contains the symbols that are named; with a `^`, the letters that aren't
pub open spec fn in_class(ts: Seq<Tree>, s: int) -> bool { some_names(listed(ts), s) != (inverted(ts) && is_letter(s)) }
pub open spec fn single_of(p: spec_fn(int) -> bool) -> Lang { |v: Seq<Char>| v.len() == 1 && p(v[0].sym()) }
pub open spec fn letter_sym(c: char) -> Char { Char(symbol(c) as u8) }
pub open spec fn bank_of(t: Tree) -> Seq<Char> { Seq::new(t.inner.len(), |i: int| letter_sym(t.inner[i].text[0])) }
pub open spec fn at_least(t: Tree) -> usize { match t.rule { Rule::repeat_oneormore => 1, Rule::repeat_exact | Rule::repeat_atleast | Rule::repeat_range => number(t.inner[1].text), _ => 0 } }
pub open spec fn at_most(t: Tree) -> Option<usize> { match t.rule { Rule::repeat_optional => Some(1), Rule::repeat_exact | Rule::repeat_atmost => Some(number(t.inner[1].text)), Rule::repeat_range => Some(number(t.inner[2].text)), _ => None } }
pub open spec fn perhaps(ls: Seq<Lang>) -> Seq<Lang> { Seq::new(ls.len(), |i: int| if 0 <= i < ls.len() { rep(ls[i], 0, Some(1)) } else { |v: Seq<Char>| false }) }
pub open spec fn any_symbol() -> spec_fn(int) -> bool { |s: int| 0 <= s < SYMBOLS }
pub open spec fn a_letter() -> spec_fn(int) -> bool { |s: int| is_letter(s) }
pub open spec fn anything() -> Lang { rep(single_of(any_symbol()), 0, None) }
/// With anything before, between, and after
pub open spec fn amid(ls: Seq<Lang>) -> Seq<Lang> { Seq::new(2 * ls.len() + 1, |i: int| if i % 2 == 1 && 0 <= i / 2 < ls.len() { ls[i / 2] } else { anything() }) }
pub open spec fn of_length(n: usize) -> Seq<Lang> { seq![rep(single_of(a_letter()), n, Some(n)), single_of(|s: int| s == SPACE)] }
pub open spec fn anagram_kind(t: Tree) -> AnagramKind { match t.rule { Rule::subanagram => AnagramKind::Sub, Rule::superanagram => AnagramKind::Super, Rule::transadd => AnagramKind::TransAdd(number(t.inner[1].text)), Rule::transdelete => AnagramKind::TransDelete(number(t.inner[1].text)), _ => AnagramKind::Standard } }
pub open spec fn denotes(t: Tree) -> Lang
    decreases t
{
    let parts = Seq::new(t.inner.len(), |i: int| if 0 <= i < t.inner.len() { denotes(t.inner[i]) } else { |v: Seq<Char>| false });
    match t.rule {
        Rule::character => single_of(|s: int| s == symbol(t.text[0])),
        Rule::dot => single_of(a_letter()),
        Rule::class => single_of(|s: int| in_class(t.inner, s)),
        Rule::number => cat(of_length(number(t.text)), 0, 2),
        Rule::sequence | Rule::group => cat(parts, 0, parts.len() as int),
        Rule::alternatives => alt(parts),
        Rule::substring => part(parts),
        Rule::subset => cat(perhaps(parts), 0, parts.len() as int),
        Rule::superset => cat(amid(parts), 0, (2 * parts.len() + 1) as int),
        Rule::anagram | Rule::subanagram | Rule::superanagram | Rule::transadd | Rule::transdelete => |v: Seq<Char>| anagram(anagram_kind(t), bank_of(t.inner[0]), v),
        _ => if is_repeat(t.rule) && t.inner.len() > 0 { rep(denotes(t.inner[0]), at_least(t), at_most(t)) } else { |v: Seq<Char>| false },
    }
}
pub open spec fn denoted(ts: Seq<Tree>) -> Seq<Lang> { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { denotes(ts[i]) } else { |v: Seq<Char>| false }) }
/// The text mentions a symbol: by name, in an enumeration (letters and spaces), or in a superset group (everything)
pub open spec fn mentioned(t: Tree, s: int) -> bool
    decreases t
{
    match t.rule {
        Rule::character => s == symbol(t.text[0]),
        Rule::dot => is_letter(s),
        Rule::class => in_class(t.inner, s),
        Rule::number => is_letter(s) || s == SPACE,
        Rule::superset => 0 <= s < SYMBOLS || exists|i: int| 0 <= i < t.inner.len() && mentioned(#[trigger] t.inner[i], s),
        Rule::sequence | Rule::group | Rule::alternatives | Rule::substring | Rule::subset => exists|i: int| 0 <= i < t.inner.len() && mentioned(#[trigger] t.inner[i], s),
        Rule::anagram | Rule::subanagram | Rule::superanagram | Rule::transadd | Rule::transdelete => cnt(bank_of(t.inner[0]), s) > 0,
        _ => is_repeat(t.rule) && t.inner.len() > 0 && mentioned(t.inner[0], s),
    }
}
/// A syntax tree mentions a symbol
pub open spec fn mentions(t: Ast, s: int) -> bool
    decreases t
{
    match t {
        Ast::CharClass(b) => b.has_sym(s),
        Ast::Alternatives(ts) => exists|i: int| 0 <= i < ts@.len() && mentions(#[trigger] ts@[i], s),
        Ast::Sequence(ts) => exists|i: int| 0 <= i < ts@.len() && mentions(#[trigger] ts@[i], s),
        Ast::Substring(ts) => exists|i: int| 0 <= i < ts@.len() && mentions(#[trigger] ts@[i], s),
        Ast::Repetition { term, min, max } => mentions(*term, s),
        Ast::Anagram { kind, bank } => cnt(bank@, s) > 0,
    }
}
/// The syntax tree for a tree of the parser
#[verifier::opaque]
pub open spec fn stands_for(a: Ast, t: Tree) -> bool { parsed(a) && lang(a) == denotes(t) && forall|s: int| #[trigger] mentions(a, s) == mentioned(t, s) }
#[verifier::opaque]
pub open spec fn all_stand(ts: Seq<Ast>, us: Seq<Tree>) -> bool { ts.len() == us.len() && forall|i: int| 0 <= i < ts.len() ==> stands_for(#[trigger] ts[i], us[i]) }

pub open spec fn fit(ts: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ts.len() ==> is_term((#[trigger] ts[i]).rule) && well(ts[i]) }
pub open spec fn numerals(ts: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ts.len() ==> numeral(#[trigger] ts[i]) }
pub fn rt_none<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
#[verifier::external_body]
pub fn first_number(v: &Vec<usize>) -> (r: Option<usize>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None }) { v.get(0).cloned() }
#[verifier::external_body]
pub fn has_char(v: &Vec<Char>, c: &Char) -> (r: bool) ensures r == v@.contains(*c) { v.contains(c) }
pub fn pair_of(a: Ast, b: Ast) -> (r: Vec<Ast>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); proof { assert(v@ =~= seq![a, b]); } v }

// ---- the cases

pub proof fn lemma_ranges()
    ensures forall|lo: char, hi: char, i: int| alphabetic(lo) && alphabetic(hi) ==> #[trigger] in_range(lo, hi, i) == (symbol(lo) <= i <= symbol(hi))
{
    assert forall|lo: char, hi: char, i: int| alphabetic(lo) && alphabetic(hi) implies #[trigger] in_range(lo, hi, i) == (symbol(lo) <= i <= symbol(hi)) by {
        if symbol(lo) <= i <= symbol(hi) {
            let c = ('a' as u32 + i) as u32 as char;
            assert(c as u32 == 'a' as u32 + i);
            assert(lower(lo) <= c <= lower(hi) && symbol(c) == i);
        }
        if in_range(lo, hi, i) { let c = choose|c: char| lower(lo) <= c <= lower(hi) && symbol(c) == i; assert('a' <= c <= 'z'); }
    }
}
pub proof fn lemma_some_names(ts: Seq<Tree>, n: int)
    requires 0 <= n < ts.len()
    ensures forall|s: int| #[trigger] some_names(ts.take(n + 1), s) == (some_names(ts.take(n), s) || names_sym(ts[n], s))
{
    assert forall|s: int| #[trigger] some_names(ts.take(n + 1), s) == (some_names(ts.take(n), s) || names_sym(ts[n], s)) by {
        if some_names(ts.take(n + 1), s) {
            let i = choose|i: int| 0 <= i < n + 1 && names_sym(#[trigger] ts.take(n + 1)[i], s);
            if i < n { assert(names_sym(ts.take(n)[i], s)); }
        }
        if some_names(ts.take(n), s) { let i = choose|i: int| 0 <= i < n && names_sym(#[trigger] ts.take(n)[i], s); assert(names_sym(ts.take(n + 1)[i], s)); }
        if names_sym(ts[n], s) { assert(names_sym(ts.take(n + 1)[n], s)); }
    }
}
pub proof fn lemma_class(b: CharBitset, t: Tree, p: spec_fn(int) -> bool)
    requires forall|s: int| #[trigger] b.has_sym(s) == p(s), forall|s: int| #[trigger] p(s) ==> 0 <= s < SYMBOLS, t.rule is character || t.rule is dot || t.rule is class,
        denotes(t) == single_of(p), forall|s: int| #[trigger] mentioned(t, s) == p(s)
    ensures stands_for(Ast::CharClass(b), t)
{
    reveal(stands_for);
    assert(one(b) =~= single_of(p));
}
pub proof fn lemma_denoted(ts: Seq<Ast>, us: Seq<Tree>)
    requires all_stand(ts, us)
    ensures langs(ts) =~= denoted(us), forall|i: int| 0 <= i < ts.len() ==> parsed(#[trigger] ts[i]), forall|s: int| #[trigger] any_mentions(ts, s) == any_mentioned(us, s)
{
    reveal(stands_for); reveal(all_stand);
    assert forall|s: int| #[trigger] any_mentions(ts, s) == any_mentioned(us, s) by {
        if any_mentions(ts, s) { let i = choose|i: int| 0 <= i < ts.len() && mentions(#[trigger] ts[i], s); assert(stands_for(ts[i], us[i])); assert(mentioned(us[i], s)); }
        if any_mentioned(us, s) { let i = choose|i: int| 0 <= i < us.len() && mentioned(#[trigger] us[i], s); assert(stands_for(ts[i], us[i])); assert(mentions(ts[i], s)); }
    }
    assert forall|i: int| 0 <= i < ts.len() implies langs(ts)[i] == denoted(us)[i] by { assert(stands_for(ts[i], us[i])); }
    assert forall|i: int| 0 <= i < ts.len() implies parsed(#[trigger] ts[i]) by { assert(stands_for(ts[i], us[i])); }
}
pub open spec fn any_mentions(ts: Seq<Ast>, s: int) -> bool { exists|i: int| 0 <= i < ts.len() && mentions(#[trigger] ts[i], s) }
pub open spec fn any_mentioned(ts: Seq<Tree>, s: int) -> bool { exists|i: int| 0 <= i < ts.len() && mentioned(#[trigger] ts[i], s) }
pub proof fn lemma_denotes(t: Tree)
    ensures t.rule is sequence || t.rule is group ==> denotes(t) == cat(denoted(t.inner), 0, t.inner.len() as int), t.rule is alternatives ==> denotes(t) == alt(denoted(t.inner)), t.rule is substring ==> denotes(t) == part(denoted(t.inner)),
        t.rule is subset ==> denotes(t) == cat(perhaps(denoted(t.inner)), 0, t.inner.len() as int), t.rule is superset ==> denotes(t) == cat(amid(denoted(t.inner)), 0, (2 * t.inner.len() + 1) as int),
{
    let ts = t.inner;
    let n = ts.len();
    assert forall|s: Seq<Lang>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == denotes(ts[i])) implies #[trigger] alt(s) == alt(denoted(ts)) by { assert(s =~= denoted(ts)); }
    assert forall|s: Seq<Lang>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == denotes(ts[i])) implies #[trigger] part(s) == part(denoted(ts)) by { assert(s =~= denoted(ts)); }
    assert forall|s: Seq<Lang>, j: int| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == denotes(ts[i])) implies #[trigger] cat(s, 0, j) == cat(denoted(ts), 0, j) by { assert(s =~= denoted(ts)); }
    assert forall|s: Seq<Lang>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == denotes(ts[i])) implies #[trigger] perhaps(s) == perhaps(denoted(ts)) by { assert(s =~= denoted(ts)); }
    assert forall|s: Seq<Lang>| s.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == denotes(ts[i])) implies #[trigger] amid(s) == amid(denoted(ts)) by { assert(s =~= denoted(ts)); }
}
pub proof fn lemma_compound(a: Ast, v: Vec<Ast>, t: Tree)
    requires all_stand(v@, t.inner), match t.rule { Rule::sequence | Rule::group => a == Ast::Sequence(v), Rule::alternatives => a == Ast::Alternatives(v), Rule::substring => a == Ast::Substring(v), _ => false }
    ensures stands_for(a, t)
{
    lemma_denoted(v@, t.inner);
    reveal(stands_for);
    lemma_lang(a); lemma_denotes(t);
    assert(lang(a) == denotes(t));
    assert forall|s: int| #[trigger] mentions(a, s) == mentioned(t, s) by { assert(any_mentions(v@, s) == any_mentioned(t.inner, s)); }
}

pub proof fn lemma_subset(v: Vec<Ast>, t: Tree)
    requires t.rule is subset, v@.len() == t.inner.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Repetition && v@[i]->min == 0 && v@[i]->max == Some(1usize) && stands_for(*v@[i]->term, t.inner[i])
    ensures stands_for(Ast::Sequence(v), t)
{
    let a = Ast::Sequence(v);
    reveal(stands_for);
    lemma_lang(a); lemma_denotes(t);
    assert(langs(v@) =~= perhaps(denoted(t.inner)));
    assert forall|i: int| 0 <= i < v@.len() implies parsed(#[trigger] v@[i]) by { assert(parsed(*v@[i]->term)); }
    assert forall|s: int| #[trigger] mentions(a, s) == mentioned(t, s) by {
        if mentions(a, s) { let i = choose|i: int| 0 <= i < v@.len() && mentions(#[trigger] v@[i], s); assert(mentions(*v@[i]->term, s)); assert(mentioned(t.inner[i], s)); }
        if mentioned(t, s) { let i = choose|i: int| 0 <= i < t.inner.len() && mentioned(#[trigger] t.inner[i], s); assert(mentions(*v@[i]->term, s)); assert(mentions(v@[i], s)); }
    }
}
pub open spec fn any_run(a: Ast) -> bool { a is Repetition && a->min == 0 && a->max == None::<usize> && *a->term == Ast::CharClass(CharBitset::ALL) }
pub open spec fn surrounded(v: Seq<Ast>, ts: Seq<Tree>, n: int) -> bool {
    v.len() == 2 * n && forall|i: int| 0 <= i < v.len() ==> if i % 2 == 1 { stands_for(#[trigger] v[i], ts[i / 2]) } else { any_run(v[i]) }
}
pub proof fn lemma_any_run(a: Ast)
    requires any_run(a)
    ensures parsed(a), lang(a) == anything(), forall|s: int| #[trigger] mentions(a, s) == (0 <= s < SYMBOLS)
{
    lemma_consts();
    assert(one(CharBitset::ALL) =~= single_of(any_symbol()));
    assert(parsed(*a->term)); assert(lang(*a->term) == one(CharBitset::ALL));
    assert forall|s: int| #[trigger] mentions(a, s) == (0 <= s < SYMBOLS) by { assert(mentions(*a->term, s) == CharBitset::ALL.has_sym(s)); }
}
pub proof fn lemma_superset(v: Vec<Ast>, t: Tree)
    requires t.rule is superset, v@.len() == 2 * t.inner.len() + 1, surrounded(v@.drop_last(), t.inner, t.inner.len() as int), any_run(v@.last())
    ensures stands_for(Ast::Sequence(v), t)
{
    let a = Ast::Sequence(v);
    let n = t.inner.len();
    reveal(stands_for);
    lemma_lang(a); lemma_denotes(t);
    assert forall|i: int| 0 <= i < v@.len() implies if i % 2 == 1 { stands_for(#[trigger] v@[i], t.inner[i / 2]) && i / 2 < n } else { any_run(v@[i]) } by { if i < 2 * n { assert(v@.drop_last()[i] == v@[i]); } }
    assert forall|i: int| 0 <= i < v@.len() implies langs(v@)[i] == amid(denoted(t.inner))[i] && parsed(#[trigger] v@[i]) by { if i % 2 == 0 { lemma_any_run(v@[i]); } }
    assert(langs(v@) =~= amid(denoted(t.inner)));
    assert forall|s: int| #[trigger] mentions(a, s) == mentioned(t, s) by {
        if mentions(a, s) { let i = choose|i: int| 0 <= i < v@.len() && mentions(#[trigger] v@[i], s); if i % 2 == 0 { lemma_any_run(v@[i]); } else { assert(mentioned(t.inner[i / 2], s)); } }
        if mentioned(t, s) {
            if 0 <= s < SYMBOLS { lemma_any_run(v@[0]); assert(mentions(v@[0], s)); }
            else { let i = choose|i: int| 0 <= i < t.inner.len() && mentioned(#[trigger] t.inner[i], s); assert(stands_for(v@[2 * i + 1], t.inner[i])); assert(mentions(v@[2 * i + 1], s)); }
        }
    }
}
pub proof fn lemma_of_length(v: Vec<Ast>, n: usize, t: Tree)
    requires t.rule is number, number(t.text) == n, v@.len() == 2, v@[0] is Repetition, v@[0]->min == n, v@[0]->max == Some(n), *v@[0]->term == Ast::CharClass(CharBitset::LETTERS),
        v@[1] is CharClass, forall|s: int| #[trigger] v@[1]->CharClass_0.has_sym(s) == (s == SPACE)
    ensures stands_for(Ast::Sequence(v), t)
{
    let a = Ast::Sequence(v);
    reveal(stands_for);
    lemma_consts();
    lemma_lang(a);
    assert(one(CharBitset::LETTERS) =~= single_of(a_letter()));
    let sp = |s: int| s == SPACE;
    assert(one(v@[1]->CharClass_0) =~= single_of(sp));
    assert(parsed(*v@[0]->term)); assert(parsed(v@[0])); assert(parsed(v@[1])) by { assert(v@[1]->CharClass_0.wf()); }
    assert(lang(*v@[0]->term) == one(CharBitset::LETTERS));
    assert(lang(v@[0]) == of_length(n)[0]);
    assert(lang(v@[1]) == of_length(n)[1]) by { assert(lang(v@[1]) =~= of_length(n)[1]); }
    assert(langs(v@) =~= of_length(n));
    assert forall|s: int| #[trigger] mentions(a, s) == mentioned(t, s) by {
        assert(mentions(*v@[0]->term, s) == CharBitset::LETTERS.has_sym(s));
        assert(mentions(v@[0], s) == is_letter(s));
        assert(mentions(v@[1], s) == (s == SPACE));
        if mentions(a, s) { let i = choose|i: int| 0 <= i < v@.len() && mentions(#[trigger] v@[i], s); }
    }
}
pub proof fn lemma_repeat(a: Ast, t: Tree)
    requires is_repeat(t.rule), t.inner.len() > 0, a is Repetition, a->min == at_least(t), a->max == at_most(t), stands_for(*a->term, t.inner[0])
    ensures stands_for(a, t)
{
    reveal(stands_for);
    assert(lang(a) == denotes(t));
    assert forall|s: int| #[trigger] mentions(a, s) == mentioned(t, s) by { assert(mentions(*a->term, s) == mentioned(t.inner[0], s)); }
}
pub open spec fn same_anagram(k: AnagramKind, k2: AnagramKind, n: nat) -> bool { k == k2 || k is TransDelete && k2 is TransDelete && k->TransDelete_0 >= n && k2->TransDelete_0 >= n }
pub proof fn lemma_anagram_of(a: Ast, t: Tree)
    requires t.rule is anagram || t.rule is subanagram || t.rule is superanagram || t.rule is transadd || t.rule is transdelete, t.inner.len() > 0, a_body(t.inner[0]),
        a is Anagram, a->bank@ == bank_of(t.inner[0]), a->bank@.len() <= usize::MAX, same_anagram(a->kind, anagram_kind(t), a->bank@.len()),
    ensures stands_for(a, t)
{
    reveal(stands_for);
    let b = t.inner[0];
    assert forall|i: int| 0 <= i < a->bank@.len() implies (#[trigger] a->bank@[i]).wf() && is_letter(a->bank@[i].sym()) by { assert(alphabetic(b.inner[i].text[0])); }
    assert(a_bank(a->bank@));
    assert forall|v: Seq<Char>| anagram(a->kind, a->bank@, v) == anagram(anagram_kind(t), bank_of(b), v) by { }
    assert(lang(a) =~= denotes(t));
}

/// One way to write the syntax tree
pub open spec fn made(a: Ast, t: Tree) -> bool {
    match t.rule {
        Rule::character => a is CharClass && t.text.len() > 0 && forall|s: int| #[trigger] a->CharClass_0.has_sym(s) == (s == symbol(t.text[0])),
        Rule::dot => a is CharClass && forall|s: int| #[trigger] a->CharClass_0.has_sym(s) == is_letter(s),
        Rule::class => a is CharClass && members(listed(t.inner)) && forall|s: int| #[trigger] a->CharClass_0.has_sym(s) == in_class(t.inner, s),
        Rule::number => a is Sequence && a->Sequence_0@.len() == 2 && a->Sequence_0@[0] is Repetition && a->Sequence_0@[0]->min == number(t.text) && a->Sequence_0@[0]->max == Some(number(t.text)) && *a->Sequence_0@[0]->term == Ast::CharClass(CharBitset::LETTERS)
            && a->Sequence_0@[1] is CharClass && forall|s: int| #[trigger] a->Sequence_0@[1]->CharClass_0.has_sym(s) == (s == SPACE),
        Rule::sequence | Rule::group => a is Sequence && all_stand(a->Sequence_0@, t.inner),
        Rule::alternatives => a is Alternatives && all_stand(a->Alternatives_0@, t.inner),
        Rule::substring => a is Substring && all_stand(a->Substring_0@, t.inner),
        Rule::subset => a is Sequence && a->Sequence_0@.len() == t.inner.len() && forall|i: int| 0 <= i < t.inner.len() ==> (#[trigger] a->Sequence_0@[i]) is Repetition && a->Sequence_0@[i]->min == 0 && a->Sequence_0@[i]->max == Some(1usize) && stands_for(*a->Sequence_0@[i]->term, t.inner[i]),
        Rule::superset => a is Sequence && a->Sequence_0@.len() == 2 * t.inner.len() + 1 && surrounded(a->Sequence_0@.drop_last(), t.inner, t.inner.len() as int) && any_run(a->Sequence_0@.last()),
        Rule::anagram | Rule::subanagram | Rule::superanagram | Rule::transadd | Rule::transdelete => a is Anagram && t.inner.len() > 0 && a_body(t.inner[0]) && a->bank@ == bank_of(t.inner[0]) && a->bank@.len() <= usize::MAX && same_anagram(a->kind, anagram_kind(t), a->bank@.len()),
        _ => is_repeat(t.rule) && t.inner.len() > 0 && a is Repetition && a->min == at_least(t) && a->max == at_most(t) && stands_for(*a->term, t.inner[0]),
    }
}
pub proof fn lemma_made(t: Tree)
    ensures forall|a: Ast| made(a, t) ==> #[trigger] stands_for(a, t)
{
    assert forall|a: Ast| made(a, t) implies #[trigger] stands_for(a, t) by {
        match t.rule {
            Rule::character => { lemma_class(a->CharClass_0, t, |s: int| s == symbol(t.text[0])); }
            Rule::dot => { lemma_class(a->CharClass_0, t, a_letter()); }
            Rule::class => {
                let p = |s: int| in_class(t.inner, s);
                assert forall|s: int| #[trigger] p(s) implies 0 <= s < SYMBOLS by { if some_names(listed(t.inner), s) { let i = choose|i: int| 0 <= i < listed(t.inner).len() && names_sym(#[trigger] listed(t.inner)[i], s); assert(member(listed(t.inner)[i])); } }
                lemma_class(a->CharClass_0, t, p);
            }
            Rule::number => { lemma_of_length(a->Sequence_0, number(t.text), t); }
            Rule::sequence | Rule::group => { lemma_compound(a, a->Sequence_0, t); }
            Rule::alternatives => { lemma_compound(a, a->Alternatives_0, t); }
            Rule::substring => { lemma_compound(a, a->Substring_0, t); }
            Rule::subset => { lemma_subset(a->Sequence_0, t); }
            Rule::superset => { lemma_superset(a->Sequence_0, t); }
            Rule::anagram | Rule::subanagram | Rule::superanagram | Rule::transadd | Rule::transdelete => { lemma_anagram_of(a, t); }
            _ => { lemma_repeat(a, t); }
        }
    }
}

/// An option is set if it is written in the text
pub open spec fn written(ts: Seq<Tree>, r: Rule) -> bool { exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).rule == r }
pub open spec fn set_if(b: bool, otherwise: Option<bool>) -> Option<bool> { if b { Some(true) } else { otherwise } }
/// The last number of edits counts
pub open spec fn edits_of(ts: Seq<Tree>) -> Option<usize>
    decreases ts.len()
{
    if ts.len() == 0 { None } else if ts.last().rule is option_fuzz { Some(number(ts.last().inner[0].text)) } else { edits_of(ts.drop_last()) }
}
pub open spec fn options_of(ts: Seq<Tree>) -> ExpressionOptions {
    ExpressionOptions { explicit_word_boundaries: set_if(written(ts, Rule::option_word_boundaries), None), explicit_punctuation: set_if(written(ts, Rule::option_punctuation), None), fuzz: edits_of(ts) }
}
pub proof fn lemma_options(ts: Seq<Tree>, n: int)
    requires 0 <= n < ts.len()
    ensures edits_of(ts.take(n + 1)) == (if ts[n].rule is option_fuzz { Some(number(ts[n].inner[0].text)) } else { edits_of(ts.take(n)) }),
        forall|r: Rule| #[trigger] written(ts.take(n + 1), r) == (written(ts.take(n), r) || ts[n].rule == r),
{
    let us = ts.take(n + 1);
    assert(us.drop_last() =~= ts.take(n));
    assert forall|r: Rule| #[trigger] written(us, r) == (written(ts.take(n), r) || ts[n].rule == r) by {
        if written(us, r) { let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]).rule == r; if i < n { assert(ts.take(n)[i].rule == r); } }
        if written(ts.take(n), r) { let i = choose|i: int| 0 <= i < n && (#[trigger] ts.take(n)[i]).rule == r; assert(us[i].rule == r); }
        if ts[n].rule == r { assert(us[n].rule == r); }
    }
}
/// The options that are in force: those that are written, and those that the pattern asks for by what it mentions
pub open spec fn in_force(ts: Seq<Tree>, t: Tree) -> ExpressionOptions {
    ExpressionOptions {
        explicit_word_boundaries: set_if(written(ts, Rule::option_word_boundaries) || mentioned(t, SPACE), None),
        explicit_punctuation: set_if(written(ts, Rule::option_punctuation) || mentioned(t, PUNCT), None),
        fuzz: edits_of(ts),
    }
}
pub proof fn lemma_mentions(a: Ast, s: int)
    ensures mentions(a, s) == match a {
        Ast::CharClass(b) => b.has_sym(s),
        Ast::Alternatives(ts) => any_mentions(ts@, s),
        Ast::Sequence(ts) => any_mentions(ts@, s),
        Ast::Substring(ts) => any_mentions(ts@, s),
        Ast::Repetition { term, min, max } => mentions(*term, s),
        Ast::Anagram { kind, bank } => cnt(bank@, s) > 0,
    }
{ }
pub proof fn lemma_any(ts: Seq<Ast>, n: int, s: int)
    requires 0 <= n < ts.len()
    ensures any_mentions(ts.take(n + 1), s) == (any_mentions(ts.take(n), s) || mentions(ts[n], s))
{
    let us = ts.take(n + 1);
    if any_mentions(us, s) { let i = choose|i: int| 0 <= i < us.len() && mentions(#[trigger] us[i], s); if i < n { assert(mentions(ts.take(n)[i], s)); } }
    if any_mentions(ts.take(n), s) { let i = choose|i: int| 0 <= i < n && mentions(#[trigger] ts.take(n)[i], s); assert(mentions(us[i], s)); }
    if mentions(ts[n], s) { assert(mentions(us[n], s)); }
}
pub proof fn lemma_contains(bank: Seq<Char>, c: Char)
    ensures bank.contains(c) == (cnt(bank, c.sym()) > 0)
    decreases bank.len()
{
    if bank.len() > 0 {
        lemma_contains(bank.drop_last(), c);
        if bank.contains(c) { let i = choose|i: int| 0 <= i < bank.len() && bank[i] == c; if i < bank.len() - 1 { assert(bank.drop_last()[i] == c); } lemma_cnt_some(bank.drop_last(), c.sym()); }
        if cnt(bank, c.sym()) > 0 { if bank.last().sym() == c.sym() { assert(bank[bank.len() - 1] == c); } else { let i = choose|i: int| 0 <= i < bank.len() - 1 && bank.drop_last()[i] == c; assert(bank[i] == c); } }
        else { lemma_cnt_some(bank.drop_last(), c.sym()); }
    }
}
pub proof fn lemma_cnt_some(v: Seq<Char>, s: int)
    ensures cnt(v, s) >= 0
    decreases v.len()
{ if v.len() > 0 { lemma_cnt_some(v.drop_last(), s); } }

/// The syntax trees for several trees, one after the other: `filter_map(parse_term)`, written out
pub fn parse_terms<'i>(pairs: Pairs<'i, Rule>, t_: Ghost<Tree>) -> (r: Vec<Ast>)
    requires pairs.trees() == t_@.inner, fit(t_@.inner)
    ensures all_stand(r@, t_@.inner)
    decreases t_@, 0int
{
    let mut pairs = pairs;
    let mut out: Vec<Ast> = Vec::new();
    let ghost mut n_: int = 0;
    let ghost ts = t_@.inner;
    proof { assert(ts.skip(0) =~= ts); reveal(all_stand); }
    loop
        invariant 0 <= n_ <= ts.len(), ts == t_@.inner, pairs.trees() == ts.skip(n_), all_stand(out@, ts.take(n_)), fit(ts)
        ensures n_ == ts.len(), all_stand(out@, ts.take(n_))
        decreases ts.len() - n_
    {
        match pairs.next() {
            None => { break; }
            Some(p) => {
                let ghost o_ = out@;
                proof { reveal(all_stand); assert(is_term(ts[n_].rule) && well(ts[n_])); assert(p.tree() == ts[n_]); }
                if let Some(a) = parse_term(p) { out.push(a); }
                proof { lemma_stand_push(o_, ts, n_, out@[n_]); n_ = n_ + 1; assert(ts.skip(n_ - 1).skip(1) =~= ts.skip(n_)); }
            }
        }
    }
    proof { assert(ts.take(n_) =~= ts); }
    out
}
pub proof fn lemma_stand_push(o: Seq<Ast>, ts: Seq<Tree>, n: int, a: Ast)
    requires 0 <= n < ts.len(), all_stand(o, ts.take(n)), stands_for(a, ts[n])
    ensures all_stand(o.push(a), ts.take(n + 1))
{
    reveal(all_stand);
    assert forall|i: int| 0 <= i < n + 1 implies stands_for(#[trigger] o.push(a)[i], ts.take(n + 1)[i]) by { if i < n { assert(stands_for(o[i], ts.take(n)[i])); } }
}
""")
    UNI = "the trait function is verified as an inherent one of another name"
    CASE = "an unreachable case becomes a proof obligation"
    NUM = ("$ip.as_str().parse().unwrap_or(usize::MAX)", "number_of(&$ip)", TEXT)
    FIRST = ("$ip.as_str().chars().next().unwrap()", "first_char(&$ip)", TEXT)
    CHARS = ("$ip.as_str().chars().collect::<Vec<_>>()", "chars_of(&$ip)", TEXT)
    PAIR = ("Pair<Rule>", "Pair<'i, Rule>", "a lifetime is named")
    PAIRS = ("Pairs<'_, Rule>", "Pairs<'i, Rule>", "a lifetime is named")
    m.fn("parse_numbers", Fn(sig="""    requires numerals(pairs.trees())
    ensures r@.len() == pairs.trees().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == number(pairs.trees()[i].text)""", attrs=ATTRS, vis="pub ",
        rules=[("fn parse_numbers(", "fn parse_numbers<'i>(", "a lifetime is named"), PAIRS, NUM,
               ("pairs.filter_map(|$ip| { $e }).collect()", "let mut pairs_ = pairs; let mut out_: Vec<usize> = Vec::new(); loop { match pairs_.next() { None => { break; } Some($ip) => { if let Some(x_) = { $e } { out_.push(x_); } } } } out_", WRITTEN)],
        start="        let ghost ts = pairs.trees(); let ghost mut n_: int = 0; proof { assert(ts.skip(0) =~= ts); }",
        loops=[Loop("""            invariant 0 <= n_ <= ts.len(), pairs_.trees() == ts.skip(n_), numerals(ts), out_@.len() == n_, forall|i: int| 0 <= i < n_ ==> #[trigger] out_@[i] == number(ts[i].text)
            ensures n_ == ts.len()
            decreases ts.len() - n_""", start="            proof { if n_ < ts.len() { assert(numeral(ts[n_]));  assert(ts.skip(n_).skip(1) =~= ts.skip(n_ + 1)); } }",
            end="            proof { n_ = n_ + 1; }")]))
    m.fn("parse_anagram", Fn(sig="""    requires pairs.trees().len() > 0, a_body(pairs.trees()[0]), numerals(pairs.trees().skip(1))
    ensures r.0@ == bank_of(pairs.trees()[0]), r.0@.len() <= usize::MAX, r.1 == (if pairs.trees().len() > 1 { Some(number(pairs.trees()[1].text)) } else { None })""", attrs=ATTRS, vis="pub ",
        rules=[("fn parse_anagram(", "fn parse_anagram<'i>(", "a lifetime is named"), PAIRS, FIRST,
               ("body.into_inner().map(|$ip| $e.into()).collect()", "{ let mut pairs_ = body.into_inner(); let mut out_: Vec<Char> = Vec::new(); loop { match pairs_.next() { None => { break; } Some($ip) => { out_.push(Char::from_unicode($e)); } } } out_ }", WRITTEN),
               ("parse_numbers(pairs).get(0).cloned()", "first_number(&parse_numbers(pairs))", "a query of a vector is a wrapper with an assumed contract")],
        start="        let ghost ps = pairs.trees(); let ghost ts = ps[0].inner; let ghost mut n_: int = 0; proof { assert(ts.skip(0) =~= ts); }",
        loops=[Loop("""            invariant 0 <= n_ <= ts.len(), pairs_.trees() == ts.skip(n_), a_body(ps[0]), ts == ps[0].inner, out_@.len() == n_, out_@ =~= bank_of(ps[0]).take(n_), pairs.trees() == ps.skip(1)
            ensures n_ == ts.len()
            decreases ts.len() - n_""", start="            proof { if n_ < ts.len() { assert(ts[n_].text.len() > 0 && alphabetic(ts[n_].text[0]));  assert(ts.skip(n_).skip(1) =~= ts.skip(n_ + 1)); } }",
            end="            proof { assert(out_@.last() == letter_sym(ts[n_].text[0])); n_ = n_ + 1; }", after="            proof { assert(bank_of(ps[0]).take(n_) =~= bank_of(ps[0])); assert(out_.len() <= usize::MAX); }")]))
    LOOP = "loop { match in_.next() { None => { break; } Some(p_) => { %s } } }"
    m.fn("parse_term", Fn(sig="""    requires well(pair.tree())
    ensures r is Some == is_term(pair.tree().rule), r is Some ==> stands_for(r->0, pair.tree())
    decreases pair.tree(), 1int""", attrs=ATTRS, vis="pub ",
        rules=[("fn parse_term(", "fn parse_term<'i>(", "a lifetime is named"), PAIR, FIRST, CHARS, NUM,
               ("inner.peek().map(|p| p.as_rule()) == Some($e)", "inner.next_is($e)", TEXT),
               ("inner.for_each(|$ip| $e);", "loop { match inner.next() { None => { break; } Some($ip) => { $e } } }", WRITTEN),
               ("pair.into_inner().filter_map(parse_term).collect()", "parse_terms(pair.into_inner(), Ghost(t0_))", WRITTEN),
               ("pair.into_inner().filter_map(parse_term).map(|$ic| $e).collect()", "{ let mut in_ = pair.into_inner(); let mut out_: Vec<Ast> = Vec::new(); " + LOOP % "if let Some($ic) = parse_term(p_) { out_.push($e); }" + " out_ }", WRITTEN),
               ("pair.into_inner().filter_map(parse_term).flat_map(|$ic| { vec![$e, $x,].into_iter() }).chain(std::iter::once($k)).collect()",
                "{ let mut in_ = pair.into_inner(); let mut out_: Vec<Ast> = Vec::new(); " + LOOP % "if let Some($ic) = parse_term(p_) { out_.push($e); out_.push($x); }" + " out_.push($k); out_ }", WRITTEN),
               ("vec![$e, $x,]", "pair_of($e, $x)", "a macro"),
               ("pairs.next().and_then(parse_term).unwrap()", "(match pairs.next() { Some(p_) => parse_term(p_), None => None }).unwrap()", "a method of an option is written out"),
               ("CharBitset::from($e)", "CharBitset::from_unicode($e)", UNI), ("Char::WORD_END.into()", "CharBitset::from_char(Char::WORD_END)", UNI),
               ("unreachable!()", "rt_none()", CASE), ("println!($e)", "()", "output is left out")],
        start="        let ghost t0_ = pair.tree(); let ghost ts = listed(t0_.inner); let ghost us = t0_.inner; let ghost mut n_: int = 0; proof { lemma_consts(); lemma_ranges(); lemma_made(t0_); assert(us.skip(0) =~= us); assert(ts.skip(0) =~= ts); }",
        loops=[Loop("""                invariant 0 <= n_ <= ts.len(), ts == listed(t0_.inner), inner.trees() == ts.skip(n_), members(ts), invert == inverted(t0_.inner), forall|s: int| #[trigger] bitset.has_sym(s) == some_names(ts.take(n_), s)
                ensures n_ == ts.len()
                decreases ts.len() - n_""", before="                proof { lemma_consts(); }", start="                proof { if n_ < ts.len() { assert(member(ts[n_])); lemma_some_names(ts, n_);  assert(ts.skip(n_).skip(1) =~= ts.skip(n_ + 1)); } }",
                end="                proof { n_ = n_ + 1; }", after="                proof { assert(ts.take(n_) =~= ts); }"),
               Loop("""                invariant 0 <= n_ <= us.len(), us == t0_.inner, in_.trees() == us.skip(n_), fit(us), out_@.len() == n_,
                    forall|i: int| 0 <= i < n_ ==> (#[trigger] out_@[i]) is Repetition && out_@[i]->min == 0 && out_@[i]->max == Some(1usize) && stands_for(*out_@[i]->term, us[i])
                ensures n_ == us.len()
                decreases us.len() - n_""", start="                proof { if n_ < us.len() { assert(is_term(us[n_].rule) && well(us[n_]));  assert(us.skip(n_).skip(1) =~= us.skip(n_ + 1)); } }",
                end="                proof { n_ = n_ + 1; }"),
               Loop("""                invariant 0 <= n_ <= us.len(), us == t0_.inner, in_.trees() == us.skip(n_), fit(us), surrounded(out_@, us, n_)
                ensures n_ == us.len()
                decreases us.len() - n_""", start="                proof { if n_ < us.len() { assert(is_term(us[n_].rule) && well(us[n_]));  assert(us.skip(n_).skip(1) =~= us.skip(n_ + 1)); } }",
                end="                proof { n_ = n_ + 1; }")]))
    m.fn("parse_options", Fn(sig="""    requires options_ok(pairs.trees())
    ensures r == options_of(pairs.trees())""", attrs=ATTRS, vis="pub ",
        rules=[("fn parse_options(", "fn parse_options<'i>(", "a lifetime is named"), PAIRS,
               ("for $ip in pairs { $z }", "let mut pairs_ = pairs; loop { match pairs_.next() { None => { break; } Some($ip) => { $z } } }", "iteration over the parser's trees is written out as the loop it performs"),
               ("let mut explicit_word_boundaries = None;", "let mut explicit_word_boundaries: Option<bool> = None;", "a type is named"), ("let mut explicit_punctuation = None;", "let mut explicit_punctuation: Option<bool> = None;", "a type is named"), ("let mut fuzz = None;", "let mut fuzz: Option<usize> = None;", "a type is named"),
               ("unreachable!()", "rt_none()", CASE)],
        start="        let ghost ts = pairs.trees(); let ghost mut n_: int = 0; proof { assert(ts.skip(0) =~= ts); assert(ts.take(0) =~= Seq::empty()); }",
        loops=[Loop("""            invariant 0 <= n_ <= ts.len(), pairs_.trees() == ts.skip(n_), options_ok(ts), explicit_word_boundaries == options_of(ts.take(n_)).explicit_word_boundaries, explicit_punctuation == options_of(ts.take(n_)).explicit_punctuation, fuzz == options_of(ts.take(n_)).fuzz
            ensures n_ == ts.len()
            decreases ts.len() - n_""", start="            proof { if n_ < ts.len() { assert(is_option(ts[n_])); lemma_options(ts, n_); assert(ts.skip(n_).skip(1) =~= ts.skip(n_ + 1)); if ts[n_].rule is option_fuzz { assert(numerals(ts[n_].inner)); } } }",
            end="            proof { n_ = n_ + 1; }", after="            proof { assert(ts.take(n_) =~= ts); }")]))
    m.fn("detect_options", Fn(sig="""    ensures final(options).explicit_word_boundaries == set_if(mentions(*ast, SPACE), old(options).explicit_word_boundaries), final(options).explicit_punctuation == set_if(mentions(*ast, PUNCT), old(options).explicit_punctuation), final(options).fuzz == old(options).fuzz
    decreases ast""", attrs=ATTRS, vis="pub ",
        rules=[("$r.iter().for_each(|$in| $e)", "{ let mut k_: usize = 0; while k_ < $r.len() { let $in = &$r[k_]; $e; k_ += 1; } }", WRITTEN),
               ("bank.contains(&$e)", "has_char(bank, &$e)", "a query of a vector is a wrapper with an assumed contract")],
        start="        let ghost o0_ = *options; proof { lemma_mentions(*ast, SPACE); lemma_mentions(*ast, PUNCT); if ast is Anagram { lemma_contains(ast->bank@, Char::WORD_END); lemma_contains(ast->bank@, Char::PUNCTUATION); } }",
        loops=[Loop("""            invariant 0 <= k_ <= nodes@.len(), options.explicit_word_boundaries == set_if(any_mentions(nodes@.take(k_ as int), SPACE), o0_.explicit_word_boundaries), options.explicit_punctuation == set_if(any_mentions(nodes@.take(k_ as int), PUNCT), o0_.explicit_punctuation), options.fuzz == o0_.fuzz
            decreases nodes@.len() - k_""", start="            proof { lemma_any(nodes@, k_ as int, SPACE); lemma_any(nodes@, k_ as int, PUNCT); }", after="            proof { assert(nodes@.take(k_ as int) =~= nodes@); }")]))
    m.fn("parse_expression", Fn(sig="""    requires well_expression(pair.tree())
    ensures stands_for(r.root, pair.tree().inner[0]), r.options == in_force(pair.tree().inner.skip(1), pair.tree().inner[0])""", attrs=ATTRS, vis="pub ",
        rules=[("fn parse_expression(", "fn parse_expression<'i>(", "a lifetime is named"), PAIR],
        start="        proof { reveal(stands_for); }"))
    return m
