"""What a text of several lines asks for: macros, directives, patterns, and an own list of words"""
from build import Module
from extract import Fn, Loop, Item, LostAnchor, without_nested
from syntax import grammar, TOKEN, WRITTEN

ATTRS = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(30)]"
LIB = "a function of a library is a wrapper with an assumed contract"
REST = {
    "macro_name": '{ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }', "macro_value": "{ (' '..'~')* }",
    "macro_define": '{ SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }',
    "pragma_words": '{ ^"#words" ~ number }', "pragma_limit": '{^"#limit" ~ number }', "pragma_quiet": '{^"#quiet"}', "pragma_wordlist": '{^"#wordlist"}',
    "pragma": "_{ SOI ~ (pragma_words | pragma_dict | pragma_limit | pragma_quiet | pragma_wordlist) ~ EOI }",
    "empty_line": "_{ SOI ~ EOI }", "query": "{ (pragma | macro_define | expression | empty_line) }",
}


def module():
    m = Module("texts", "parser.rs")
    rules = grammar()
    for name, body in REST.items():
        if rules.get(name) != TOKEN.findall(body):
            raise LostAnchor(f"noodle_grammar.pest: the rule {name} is not the one which the contracts are written for")
    m.text(r"""
use super::words::*;
use super::parser::*;
use super::settings::*;
use super::wordlist::*;
use super::spelling::*;
use super::anagrams::{expanded, all_parsed, parsed};
use super::syntax::*;

// ---- the library

pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct PestError<R> { it: std::marker::PhantomData<R> }
pub type Result<T> = std::result::Result<T, PestError<Rule>>;
pub struct NoodleParser;
/// The tree for a text, if it is one of the language (what the generated parser accepts)
pub uninterp spec fn tree_for(rule: Rule, text: Seq<char>) -> Option<Tree>;
pub open spec fn is_definition(t: Tree) -> bool {
    t.inner.len() >= 2 && t.inner[0].rule is macro_name && t.inner[1].rule is macro_value && forall|i: int| 2 <= i < t.inner.len() ==> !((#[trigger] t.inner[i]).rule is macro_name) && !(t.inner[i].rule is macro_value)
}
pub open spec fn well_line(t: Tree) -> bool {
    match t.rule {
        Rule::expression => well_expression(t),
        Rule::pragma_words | Rule::pragma_limit => t.inner.len() == 1 && numeral(t.inner[0]),
        Rule::macro_define => is_definition(t),
        Rule::pragma_dict | Rule::pragma_quiet | Rule::pragma_wordlist | Rule::EOI => true,
        _ => false,
    }
}
pub open spec fn well_query(t: Tree) -> bool { t.inner.len() > 0 ==> well_line(t.inner[0]) }
impl NoodleParser {
    #[verifier::external_body]
    pub fn parse<'i>(rule: Rule, text: &'i str) -> (r: Result<Pairs<'i, Rule>>)
        ensures r is Ok == tree_for(rule, text@) is Some, r is Ok ==> r->Ok_0.trees() == seq![tree_for(rule, text@)->0],
            r is Ok && rule is query ==> well_query(tree_for(rule, text@)->0), r is Ok && rule is expression ==> well_expression(tree_for(rule, text@)->0)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn error_set_line(err: PestError<Rule>, line: usize) -> PestError<Rule> { unimplemented!() }
#[verifier::external_body]
pub fn no_expression(text: &str) -> PestError<Rule> { unimplemented!() }
/// The lines of a text
pub open spec fn lines(text: Seq<char>, a: char, b: char) -> Seq<Seq<char>>
    decreases text.len()
{
    if text.len() == 0 { seq![text] }
    else {
        let ls = lines(text.drop_last(), a, b);
        if text.last() == a || text.last() == b { ls.push(Seq::empty()) } else { ls.drop_last().push(ls.last().push(text.last())) }
    }
}
#[verifier::external_body]
pub fn lines_of<'a>(text: &'a str, a: char, b: char) -> (r: Vec<&'a str>) ensures views(r@) == lines(text@, a, b) { text.split(&[a, b][..]).collect() }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { v[i]@ } else { Seq::empty() }) }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn trim_of<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trimmed(s@) { s.trim() }
#[verifier::external_body]
pub fn nothing(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub uninterp spec fn with(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn replaced(s: &String, from: &String, to: &String) -> (r: String) ensures r@ == with(s@, from@, to@) { s.replace(from, to) }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
#[verifier::external_body]
pub fn text_of<'a>(p: &Pair<'a, Rule>) -> (r: &'a str) ensures r@ == p.tree().text { unimplemented!() }
pub open spec fn joined(ts: Seq<Tree>) -> Seq<char>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { joined(ts.drop_last()) + ts.last().text } }
#[verifier::external_body]
pub fn texts_of(ps: Pairs<Rule>) -> (r: String) ensures r@ == joined(ps.trees()) { unimplemented!() }
#[verifier::external_body]
pub fn sort_words(v: &mut Vec<Word>) ensures final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
pub type Macros = Seq<(Seq<char>, Seq<char>)>;
pub open spec fn defined(ms: Macros, name: Seq<char>, value: Seq<char>) -> Macros { defined_from(ms, 0, name, value) }
/// A definition replaces that of the same name, or is a further one
pub open spec fn defined_from(ms: Macros, k: int, name: Seq<char>, value: Seq<char>) -> Macros
    decreases ms.len() - k
{ if k >= ms.len() || k < 0 { ms.push((name, value)) } else if ms[k].0 == name { ms.update(k, (name, value)) } else { defined_from(ms, k + 1, name, value) } }
impl MacroMap {
    pub uninterp spec fn macros(self) -> Macros;
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r.macros() == Macros::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn define(&mut self, name: String, value: String) ensures final(self).macros() == defined(old(self).macros(), name@, value@) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize) ensures r == self.macros().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, k: usize) -> (r: (&String, &String)) requires k < self.macros().len() ensures r.0@ == self.macros()[k as int].0, r.1@ == self.macros()[k as int].1 { unimplemented!() }
}

// ---- what the lines of a text ask for (from the documentation)

pub struct Reading {
    pub macros: Macros,
    pub expressions: Seq<Tree>,
    pub max_words: Option<usize>,
    pub dictionary: Option<Seq<char>>,
    pub results_limit: Option<usize>,
    pub quiet: Option<bool>,
    /// The words of an own list, with the number of their line
    pub own: Option<Seq<(Seq<char>, int)>>,
}
pub open spec fn unread() -> Reading { Reading { macros: Macros::empty(), expressions: Seq::empty(), max_words: None, dictionary: None, results_limit: None, quiet: None, own: None } }
/// A line with its macros replaced, in the order of their definition
pub open spec fn unfolded(line: Seq<char>, ms: Macros, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { line } else { with(unfolded(line, ms, k - 1), ms[k - 1].0, ms[k - 1].1) } }
pub open spec fn taken(st: Reading, t: Tree) -> Reading {
    match t.rule {
        Rule::expression => Reading { expressions: st.expressions.push(t), ..st },
        Rule::pragma_words => Reading { max_words: Some(number(t.inner[0].text)), ..st },
        Rule::pragma_dict => Reading { dictionary: Some(joined(t.inner)), ..st },
        Rule::pragma_limit => Reading { results_limit: Some(number(t.inner[0].text)), ..st },
        Rule::pragma_quiet => Reading { quiet: Some(true), ..st },
        Rule::pragma_wordlist => Reading { own: Some(Seq::empty()), ..st },
        Rule::macro_define => Reading { macros: defined(st.macros, t.inner[0].text, t.inner[1].text), ..st },
        _ => st,
    }
}
/// After one more line (`None`: it is refused)
pub open spec fn line_read(st: Reading, line: Seq<char>, i: int) -> Option<Reading> {
    if st.own is Some {
        if trimmed(line).len() == 0 { Some(st) } else { Some(Reading { own: Some(st.own->0.push((trimmed(line), i))), ..st }) }
    } else {
        match tree_for(Rule::query, unfolded(line, st.macros, st.macros.len() as int)) {
            None => None,
            Some(t) => if t.inner.len() == 0 { Some(st) } else { Some(taken(st, t.inner[0])) },
        }
    }
}
pub open spec fn read(ls: Seq<Seq<char>>, n: int) -> Option<Reading>
    decreases n
{ if n <= 0 { Some(unread()) } else { match read(ls, n - 1) { None => None, Some(st) => line_read(st, ls[n - 1], n - 1) } } }
pub proof fn lemma_refused(ls: Seq<Seq<char>>, n: int, k: int)
    requires 0 <= n <= k, read(ls, n) is None
    ensures read(ls, k) is None
    decreases k - n
{ if n < k { lemma_refused(ls, n, k - 1); } }
/// The syntax tree for the text of an expression
pub open spec fn expresses(e: ExpressionAst, t: Tree) -> bool { stands_for(e.root, t.inner[0]) && e.options == in_force(t.inner.skip(1), t.inner[0]) }
#[verifier::opaque]
pub open spec fn all_expressed(es: Seq<ExpressionAst>, ts: Seq<Tree>) -> bool { es.len() == ts.len() && forall|i: int| 0 <= i < es.len() ==> expresses(#[trigger] es[i], ts[i]) }
pub open spec fn is_word(w: Word, x: (Seq<char>, int)) -> bool { w.text@ == x.0 && w.chars@ == spelled(x.0).push(Char::WORD_END) && w.tranche == 1 && w.score == x.1 as u32 }
#[verifier::opaque]
pub open spec fn all_words_(ws: Seq<Word>, xs: Seq<(Seq<char>, int)>) -> bool { ws.len() == xs.len() && forall|i: int| 0 <= i < ws.len() ==> is_word(#[trigger] ws[i], xs[i]) }
/// The list which a query brings along has the words of the text, in any order
pub open spec fn brought(o: Option<Vec<Word>>, own: Option<Seq<(Seq<char>, int)>>) -> bool {
    o is Some == own is Some && (o is Some ==> exists|ws: Seq<Word>| #[trigger] all_words_(ws, own->0) && ws.to_multiset() == o->0@.to_multiset())
}
pub open spec fn same_text(a: Option<String>, b: Option<Seq<char>>) -> bool { a is Some == b is Some && (a is Some ==> a->0@ == b->0) }
/// The query for a text
pub open spec fn asks(q: QueryAst, st: Reading) -> bool {
    &&& exists|es: Seq<ExpressionAst>| #[trigger] all_expressed(es, st.expressions) && expanded(es, q.expressions@)
    &&& q.options.max_words == st.max_words && q.options.results_limit == st.results_limit && q.options.quiet == st.quiet && same_text(q.options.dictionary, st.dictionary)
    &&& brought(q.options.wordlist, st.own)
}
pub proof fn lemma_expressed(es: Seq<ExpressionAst>, ts: Seq<Tree>)
    ensures all_expressed(es, ts) ==> all_parsed(es), all_expressed(es, ts) ==> es.len() == ts.len(), all_expressed(Seq::empty(), Seq::empty()),
        forall|e: ExpressionAst, t: Tree| #![trigger es.push(e), ts.push(t)] all_expressed(es, ts) && expresses(e, t) ==> all_expressed(es.push(e), ts.push(t))
{
    reveal(all_expressed); reveal(stands_for);
    if all_expressed(es, ts) { assert forall|x: int| 0 <= x < es.len() implies parsed((#[trigger] es[x]).root) by { assert(expresses(es[x], ts[x])); } }
    assert forall|e: ExpressionAst, t: Tree| #![trigger es.push(e), ts.push(t)] all_expressed(es, ts) && expresses(e, t) implies all_expressed(es.push(e), ts.push(t)) by {
        assert forall|i: int| 0 <= i < es.len() + 1 implies expresses(#[trigger] es.push(e)[i], ts.push(t)[i]) by { if i < es.len() { assert(expresses(es[i], ts[i])); } }
    }
}
pub proof fn lemma_words(ws: Seq<Word>, xs: Seq<(Seq<char>, int)>)
    ensures all_words_(Seq::empty(), Seq::empty()), forall|w: Word, x: (Seq<char>, int)| #![trigger ws.push(w), xs.push(x)] all_words_(ws, xs) && is_word(w, x) ==> all_words_(ws.push(w), xs.push(x))
{
    reveal(all_words_);
    assert forall|w: Word, x: (Seq<char>, int)| #![trigger ws.push(w), xs.push(x)] all_words_(ws, xs) && is_word(w, x) implies all_words_(ws.push(w), xs.push(x)) by {
        assert forall|i: int| 0 <= i < ws.len() + 1 implies is_word(#[trigger] ws.push(w)[i], xs.push(x)[i]) by { if i < ws.len() { assert(is_word(ws[i], xs[i])); } }
    }
}
""")
    m.impl("impl ExpressionAst", {"new_from_str": Fn(sig="""    ensures r is Ok == tree_for(Rule::expression, input_str@) is Some, r is Ok ==> expresses(r->Ok_0, tree_for(Rule::expression, input_str@)->0)""", attrs=ATTRS)})
    outer = m.src.fn("new_from_str", "impl QueryAst")
    TYPE = "a type is named"
    f = Fn(sig="""    ensures r is Ok ==> read(lines(input_str@, '\\n', ';'), lines(input_str@, '\\n', ';').len() as int) is Some && read(lines(input_str@, '\\n', ';'), lines(input_str@, '\\n', ';').len() as int)->0.expressions.len() > 0
            && asks(r->Ok_0, read(lines(input_str@, '\\n', ';'), lines(input_str@, '\\n', ';').len() as int)->0),
        r is Err ==> read(lines(input_str@, '\\n', ';'), lines(input_str@, '\\n', ';').len() as int) is None || read(lines(input_str@, '\\n', ';'), lines(input_str@, '\\n', ';').len() as int)->0.expressions.len() == 0""", attrs=ATTRS,
        rules=[("let mut expressions = vec![];", "let mut expressions: Vec<ExpressionAst> = Vec::new();", TYPE), ("vec![]", "Vec::new()", "a macro"),
               ("IndexMap<String, String>", "MacroMap", LIB), ("IndexMap::new()", "MacroMap::empty()", LIB),
               ("for ($ii, $il) in input_str.split(&[$ea, $eb][..]).enumerate() {", "let lines_ = lines_of(input_str, $ea, $eb); let mut i_: usize = 0; while i_ < lines_.len() { let $ii = i_; let $il: &str = lines_[i_]; i_ += 1;", WRITTEN),
               ("if let Some(ref mut $iw) = wordlist {", "if let Some($iw) = &mut wordlist {", "another notation of the same pattern"),
               ("$il.trim()", "trim_of($il)", LIB), ("$il.is_empty() { wl", "nothing($il) { wl", LIB), ("line.to_owned()", "owned(line)", LIB), ("terms[$e].to_owned()", "owned(terms[$e])", LIB),
               ("for ($ia, $ib) in macros.iter() {", "let mut k_: usize = 0; while k_ < macros.count() { let ($ia, $ib) = macros.at(k_); k_ += 1;", WRITTEN),
               ("line.replace($ea, $eb)", "replaced(&line, $ea, $eb)", LIB),
               ("let mut pair = NoodleParser::parse($ea, &line).map_err(|$ic| $ed)?.next().unwrap().into_inner();", "let mut all_ = match NoodleParser::parse($ea, line.as_str()) { Ok(p_) => p_, Err($ic) => { return Err($ed); } }; let mut pair = all_.next().unwrap().into_inner();", "a method of a result is written out"),
               ("$r.get(0).cloned()", "first_number(&$r)", "a query of a vector is a wrapper with an assumed contract"),
               ("inner.map(|p| p.as_str()).collect()", "texts_of(inner)", LIB),
               ("let terms: Vec<_> = inner.filter_map(|$ip| match $e { $z }).collect();", "let mut in_ = inner; let mut terms: Vec<&str> = Vec::new(); loop { match in_.next() { None => { break; } Some($ip) => { if let Some(x_) = (match $e { $z }) { terms.push(x_); } } } }", WRITTEN),
               ("p.as_str()", "text_of(&p)", LIB), ("macros.insert($e)", "macros.define($e)", LIB), ("println!($e)", "()", "output is left out"),
               ("let message = $e; let variant = $x; return Err(PestError::new_from_pos($y));", "return Err(no_expression(input_str));", "a message is left out"),
               ("wl.sort()", "sort_words(&mut wl)", LIB)],
        start="        let ghost ls = lines(input_str@, '\\n', ';'); let ghost mut st = unread(); proof { lemma_expressed(Seq::empty(), Seq::empty()); }",
        loops=[Loop("""            invariant i_ <= lines_@.len(), views(lines_@) == ls, read(ls, i_ as int) == Some(st), macros.macros() == st.macros, all_expressed(expressions@, st.expressions),
                options.max_words == st.max_words, options.results_limit == st.results_limit, options.quiet == st.quiet, same_text(options.dictionary, st.dictionary), options.wordlist is None,
                wordlist is Some == st.own is Some, wordlist is Some ==> all_words_(wordlist->0@, st.own->0)
            decreases lines_@.len() - i_""",
                    start="            let ghost st0_ = st; let ghost l0_ = lines_@[i_ as int]@; let ghost es0_ = expressions@; let ghost ws0_ = if wordlist is Some { wordlist->0@ } else { Seq::<Word>::empty() }; proof { assert(l0_ == ls[i_ as int]); lemma_expressed(expressions@, st.expressions); lemma_words(ws0_, if st.own is Some { st.own->0 } else { Seq::empty() }); if read(ls, i_ + 1) is Some { st = read(ls, i_ + 1)->0; } else { lemma_refused(ls, i_ + 1, ls.len() as int); } }",
                    after="        let ghost es_ = expressions@; let ghost ws_ = if wordlist is Some { wordlist->0@ } else { Seq::<Word>::empty() }; proof { assert(lines_@.len() == ls.len()); lemma_expressed(expressions@, st.expressions); }"),
               Loop("""                invariant k_ <= st0_.macros.len(), macros.macros() == st0_.macros, line@ == unfolded(l0_, st0_.macros, k_ as int)
                decreases st0_.macros.len() - k_"""),
               Loop("""                        invariant 0 <= n_ <= us.len(), in_.trees() == us.skip(n_), is_definition(t0_), us == t0_.inner, terms@.len() == (if n_ < 2 { n_ } else { 2 }), n_ >= 1 ==> terms@[0]@ == us[0].text, n_ >= 2 ==> terms@[1]@ == us[1].text
                        ensures n_ == us.len()
                        decreases us.len() - n_""", before="                        let ghost us = inner.trees(); let ghost t0_ = tree_for(Rule::query, line@)->0.inner[0]; let ghost mut n_: int = 0; proof { assert(us.skip(0) =~= us); }",
                    start="                        proof { if n_ < us.len() { assert(us.skip(n_).skip(1) =~= us.skip(n_ + 1)); } }", end="                        proof { n_ = n_ + 1; }")],
        at=[("Ok(ast)", "before", "        proof { assert(all_expressed(es_, st.expressions) && expanded(es_, ast.expressions@)); if st.own is Some { assert(all_words_(ws_, st.own->0) && ws_.to_multiset() == ast.options.wordlist->0@.to_multiset()); } }")])
    flat = Item("fn", outer.name, outer.header, outer.text, [], 0)
    flat.core = without_nested(outer.core)
    m.parts.append(("impl QueryAst {", None))
    m.add_fn(flat, f, "QueryAst::new_from_str")
    m.text("}")
    return m
