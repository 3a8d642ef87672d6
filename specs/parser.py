"""The syntax tree, and what it denotes"""
import re
from build import Module, struct
from extract import lex


def module():
    m = Module("parser", "parser.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
""")
    for name in ("AnagramKind", "Ast"):
        m.text(("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" if name == "AnagramKind" else "") + "pub " + re.sub(r"^\s*pub\s+", "", m.src.find("enum", name).core))
    struct(m, "ExpressionOptions")
    struct(m, "ExpressionAst")
    m.text(r"""
// ---- languages

pub type Lang = spec_fn(Seq<Char>) -> bool;

/// `v` is a string of `p` followed by one of `q`
pub open spec fn split(p: Lang, q: Lang, v: Seq<Char>) -> bool { exists|k: int| 0 <= k <= v.len() && p(#[trigger] v.take(k)) && q(v.skip(k)) }
/// The strings of `ls[i..j]`, one after the other
pub open spec fn cat(ls: Seq<Lang>, i: int, j: int) -> Lang
    decreases j - i
{
    if i >= j { |v: Seq<Char>| v.len() == 0 } else { |v: Seq<Char>| split(ls[i], cat(ls, i + 1, j), v) }
}
pub open spec fn pow(l: Lang, n: int) -> Lang
    decreases n
{
    if n <= 0 { |v: Seq<Char>| v.len() == 0 } else { |v: Seq<Char>| split(l, pow(l, n - 1), v) }
}
pub open spec fn alt(ls: Seq<Lang>) -> Lang { |v: Seq<Char>| exists|i: int| 0 <= i < ls.len() && #[trigger] ls[i](v) }
/// One or several consecutive ones, or none
pub open spec fn part(ls: Seq<Lang>) -> Lang { |v: Seq<Char>| exists|i: int, j: int| 0 <= i <= j <= ls.len() && #[trigger] cat(ls, i, j)(v) }
pub open spec fn within(n: int, min: usize, max: Option<usize>) -> bool { min <= n && (max is Some ==> n <= max->0) }
pub open spec fn rep(l: Lang, min: usize, max: Option<usize>) -> Lang { |v: Seq<Char>| exists|n: int| #![trigger pow(l, n)] within(n, min, max) && pow(l, n)(v) }
/// How often a symbol occurs in a string
pub open spec fn cnt(v: Seq<Char>, s: int) -> int
    decreases v.len()
{
    if v.len() == 0 { 0 } else { cnt(v.drop_last(), s) + if v.last().sym() == s { 1int } else { 0 } }
}
pub open spec fn letters(v: Seq<Char>) -> bool { forall|i: int| 0 <= i < v.len() ==> is_letter((#[trigger] v[i]).sym()) }
pub open spec fn same_counts(bank: Seq<Char>, v: Seq<Char>) -> bool { forall|s: int| #[trigger] cnt(v, s) == cnt(bank, s) }
pub open spec fn fewer(bank: Seq<Char>, v: Seq<Char>) -> bool { forall|s: int| #[trigger] cnt(v, s) <= cnt(bank, s) }
pub open spec fn more(bank: Seq<Char>, v: Seq<Char>) -> bool { letters(v) && forall|s: int| #[trigger] cnt(v, s) >= cnt(bank, s) }
pub open spec fn less_by(n: int, d: usize) -> int { if n >= d { n - d } else { 0 } }
pub open spec fn more_by(n: int, d: usize) -> int { if n + d <= usize::MAX { n + d } else { usize::MAX as int } }
/// What an anagram describes: the counts of the letters stand in a relation to those of the bank
pub open spec fn anagram(kind: AnagramKind, bank: Seq<Char>, v: Seq<Char>) -> bool {
    match kind {
        AnagramKind::Standard => same_counts(bank, v),
        AnagramKind::Sub => fewer(bank, v),
        AnagramKind::TransDelete(d) => fewer(bank, v) && v.len() == less_by(bank.len() as int, d),
        AnagramKind::Super => more(bank, v),
        AnagramKind::TransAdd(d) => more(bank, v) && v.len() == more_by(bank.len() as int, d),
    }
}
pub open spec fn one(b: CharBitset) -> Lang { |v: Seq<Char>| v.len() == 1 && b.has_sym(v[0].sym()) }

/// The strings which a pattern denotes
pub open spec fn lang(ast: Ast) -> Lang
    decreases ast
{
    match ast {
        Ast::CharClass(b) => one(b),
        Ast::Alternatives(ts) => alt(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { lang(ts@[i]) } else { |v: Seq<Char>| false })),
        Ast::Sequence(ts) => cat(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { lang(ts@[i]) } else { |v: Seq<Char>| false }), 0, ts@.len() as int),
        Ast::Substring(ts) => part(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { lang(ts@[i]) } else { |v: Seq<Char>| false })),
        Ast::Repetition { term, min, max } => rep(lang(*term), min, max),
        Ast::Anagram { kind, bank } => |v: Seq<Char>| anagram(kind, bank@, v),
    }
}
pub open spec fn langs(ts: Seq<Ast>) -> Seq<Lang> { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { lang(ts[i]) } else { |v: Seq<Char>| false }) }
""")
    return m
