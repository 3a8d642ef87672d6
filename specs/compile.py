"""`Expression::from_ast`: the automaton accepts what the pattern denotes"""
from build import Module
from extract import Fn, Loop


def module():
    m = Module("compile", "expression.rs")
    m.text(r"""
use super::bitset::*;
use super::words::*;
use super::parser::*;
use super::parser;
use super::expression::*;
use super::automaton::*;
use super::construct::*;
use super::optimize::*;

pub open spec fn spaces(v: Seq<Char>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).sym() == SPACE }
/// The pattern denotes the string, up to word boundaries at its end
pub open spec fn accepts(ast: Ast, v: Seq<Char>) -> bool { exists|k: int| 0 <= k <= v.len() && lang(ast)(#[trigger] v.take(k)) && spaces(v.skip(k)) }
/// A string of the pattern is within `f` edits of `w`
pub open spec fn matches(e: Expression, ast: Ast, w: Seq<Char>, f: int) -> bool { exists|v: Seq<Char>| good(v) && #[trigger] accepts(ast, v) && e.edits(w, v, f) }

/// The expression is refused (by a panic)
#[verifier::external_body]
pub fn refuse() -> (r: ()) ensures false { panic!() }
#[verifier::external_body]
pub fn display(ast: &ExpressionAst) -> (r: String) { unimplemented!() }

pub proof fn lemma_success_walk(ss: Seq<State>, n: int, v: Seq<Char>)
    requires ss.len() >= 1, forall|k: int| !#[trigger] eps(ss, ss.len() - 1, k), forall|i: int| #[trigger] ss.last().char_bitset.has_sym(i) == (i == SPACE), ss.last().next_state == ss.len() - 1, walk(ss, 0, ss.len() as int, ss.len() - 1, n)(ss.len() - 1, v)
    ensures spaces(v)
    decreases n
{
    if n > 0 {
        let z = ss.len() as int;
        assert(move_(ss, 0, z, walk(ss, 0, z, z - 1, n - 1), z - 1, v));
        lemma_success_walk(ss, n - 1, v.skip(1));
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).sym() == SPACE by { if i > 0 { assert(v.skip(1)[i - 1] == v[i]); } }
    }
}
pub proof fn lemma_success_spaces(ss: Seq<State>, v: Seq<Char>)
    requires ss.len() >= 1, forall|i: int| #[trigger] ss.last().char_bitset.has_sym(i) == (i == SPACE), ss.last().next_state == ss.len() - 1, spaces(v)
    ensures walks(ss, 0, ss.len() as int, ss.len() - 1, ss.len() - 1, v)
    decreases v.len()
{
    let z = ss.len() as int;
    if v.len() == 0 { lemma_here(ss, 0, z, z - 1, v); }
    else {
        assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).sym() == SPACE by { assert(v.skip(1)[i] == v[i + 1]); }
        lemma_success_spaces(ss, v.skip(1));
        lemma_char_step(ss, 0, z, z - 1, z - 1, v);
    }
}
/// The automaton with the state at its end
pub proof fn lemma_finished(ss: Seq<State>, tt: Seq<State>, ast: Ast)
    requires frag(ss, 0, ss.len() as int, lang(ast)), raw(ss, 0, ss.len() as int), tt.len() == ss.len() + 1, tt.drop_last() == ss, tt.len() <= MAX_SET_SIZE,
        forall|k: int| !#[trigger] eps(tt, ss.len() as int, k), forall|i: int| #[trigger] tt.last().char_bitset.has_sym(i) == (i == SPACE), tt.last().next_state == ss.len(),
        tt.last().epsilon_states.blocks@.len() == blocks_for(MAX_SET_SIZE as int),
    ensures sane(tt, blocks_for(MAX_SET_SIZE as int)), forall|v: Seq<Char>| #[trigger] acc(tt, 0, v) == accepts(ast, v), symbols(tt)
{
    let m = ss.len() as int;
    let z = m + 1;
    let b = blocks_for(MAX_SET_SIZE as int);
    assert forall|j: int| 0 <= j < m implies #[trigger] ss[j] == tt[j] by { assert(tt.drop_last()[j] == tt[j]); }
    lemma_frag_same(ss, tt, 0, m, lang(ast));
    assert forall|i: int| 0 <= i < z implies state_sane(#[trigger] tt[i], z, b) by {
        if i < m {
            assert(tt[i] == ss[i]);
            assert forall|k: int| #[trigger] isset(tt[i].epsilon_states.blocks@, k) implies k < z by { assert(eps(tt, i, k)); }
        } else {
            assert forall|k: int| #[trigger] isset(tt[i].epsilon_states.blocks@, k) implies k < z by { assert(!eps(tt, i, k)); }
        }
    }
    assert forall|i: int| 0 <= i < z implies (#[trigger] tt[i]).char_bitset.wf() by { if i < m { assert(tt[i] == ss[i]); } }
    assert forall|v: Seq<Char>| #[trigger] acc(tt, 0, v) == accepts(ast, v) by {
        if acc(tt, 0, v) {
            let n = choose|n: int| 0 <= n && #[trigger] walk(tt, 0, z, m, n)(0, v);
            let r = lemma_through(tt, 0, m, lang(ast), 0, z, m, n, v);
            lemma_success_walk(tt, r.1, v.skip(r.0));
            assert(lang(ast)(v.take(r.0)));
        }
        if accepts(ast, v) {
            let k = choose|k: int| 0 <= k <= v.len() && lang(ast)(#[trigger] v.take(k)) && spaces(v.skip(k));
            lemma_success_spaces(tt, v.skip(k));
            lemma_into(tt, 0, m, lang(ast), 0, z, m, k, v);
        }
    }
}
pub open spec fn symbols(ss: Seq<State>) -> bool { forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ss[i]).char_bitset.wf() }

// ---- paths through an automaton with all transitions that need no symbol

pub proof fn lemma_via_one(ss: Seq<State>, s: int, v: Seq<Char>, u: int, t: int)
    requires v.len() > 0, v.last().wf(), path(ss, s, v.drop_last())(u), 0 <= u < ss.len(), ss[u].char_bitset.has_sym(v.last().sym()), eps(ss, ss[u].next_state as int, t)
    ensures path(ss, s, v)(t)
{
    let c = v.last();
    lemma_single(c.0);
    assert(class_of(c).has_sym(c.sym()));
    assert(step(ss, u, class_of(c), t));
    assert(via(ss, path(ss, s, v.drop_last()), class_of(c), t));
}
pub proof fn lemma_via_inv(ss: Seq<State>, s: int, v: Seq<Char>, t: int) -> (u: int)
    requires v.len() > 0, v.last().wf(), path(ss, s, v)(t)
    ensures path(ss, s, v.drop_last())(u), 0 <= u < ss.len(), ss[u].char_bitset.has_sym(v.last().sym()), eps(ss, ss[u].next_state as int, t)
{
    let c = v.last();
    lemma_single(c.0);
    assert(via(ss, path(ss, s, v.drop_last()), class_of(c), t));
    let u = choose|u: int| #[trigger] path(ss, s, v.drop_last())(u) && step(ss, u, class_of(c), t);
    let i = choose|i: int| class_of(c).has_sym(i) && ss[u].char_bitset.has_sym(i);
    assert(i == c.sym());
    u
}
pub proof fn lemma_eps_path(ss: Seq<State>, b: int, i: int, k: int, v: Seq<Char>, t: int)
    requires sane(ss, b), transitive(ss), 0 <= i < ss.len(), eps(ss, i, k), path(ss, k, v)(t), good(v)
    ensures path(ss, i, v)(t)
    decreases v.len()
{
    assert(state_sane(ss[i], ss.len() as int, b));
    if v.len() > 0 {
        let u = lemma_via_inv(ss, k, v, t);
        lemma_eps_path(ss, b, i, k, v.drop_last(), u);
        lemma_via_one(ss, i, v, u, t);
    }
}
pub proof fn lemma_char_path(ss: Seq<State>, b: int, i: int, v: Seq<Char>, t: int)
    requires sane(ss, b), transitive(ss), 0 <= i < ss.len(), v.len() > 0, good(v), ss[i].char_bitset.has_sym(v[0].sym()), path(ss, ss[i].next_state as int, v.skip(1))(t)
    ensures path(ss, i, v)(t)
    decreases v.len()
{
    let w = v.skip(1);
    if v.len() == 1 {
        assert(v.drop_last().len() == 0);
        assert(eps(ss, i, i));
        lemma_via_one(ss, i, v, i, t);
    } else {
        assert(w.last() == v.last());
        let u = lemma_via_inv(ss, ss[i].next_state as int, w, t);
        assert(v.drop_last().skip(1) =~= w.drop_last());
        assert(v.drop_last()[0] == v[0]);
        lemma_char_path(ss, b, i, v.drop_last(), u);
        lemma_via_one(ss, i, v, u, t);
    }
}
pub proof fn lemma_walk_path(ss: Seq<State>, b: int, t: int, n: int, i: int, v: Seq<Char>)
    requires sane(ss, b), transitive(ss), 0 <= t < ss.len(), good(v), walk(ss, 0, ss.len() as int, t, n)(i, v)
    ensures path(ss, i, v)(t)
    decreases n
{
    let z = ss.len() as int;
    if n <= 0 { assert(eps(ss, t, t)); }
    else {
        assert(move_(ss, 0, z, walk(ss, 0, z, t, n - 1), i, v));
        if exists|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, t, n - 1)(k, v) {
            let k = choose|k: int| eps(ss, i, k) && #[trigger] walk(ss, 0, z, t, n - 1)(k, v);
            lemma_walk_path(ss, b, t, n - 1, k, v);
            lemma_eps_path(ss, b, i, k, v, t);
        } else {
            lemma_walk_path(ss, b, t, n - 1, ss[i].next_state as int, v.skip(1));
            lemma_char_path(ss, b, i, v, t);
        }
    }
}
pub proof fn lemma_path_walk(ss: Seq<State>, b: int, s: int, v: Seq<Char>, u: int, t: int, w: Seq<Char>)
    requires sane(ss, b), 0 <= s < ss.len(), good(v), path(ss, s, v)(u), walks(ss, 0, ss.len() as int, t, u, w)
    ensures walks(ss, 0, ss.len() as int, t, s, v + w)
    decreases v.len()
{
    let z = ss.len() as int;
    if v.len() == 0 {
        assert(v + w =~= w);
        lemma_eps_step(ss, 0, z, t, s, u, w);
    } else {
        let x = lemma_via_inv(ss, s, v, u);
        let c = v.last();
        let w2 = seq![c] + w;
        assert(w2.skip(1) =~= w);
        assert(state_sane(ss[x], z, b));
        lemma_eps_step(ss, 0, z, t, ss[x].next_state as int, u, w);
        lemma_char_step(ss, 0, z, t, x, w2);
        lemma_path_walk(ss, b, s, v.drop_last(), x, t, w2);
        assert(v.drop_last() + w2 =~= v + w);
    }
}
pub proof fn lemma_path(ss: Seq<State>, b: int, v: Seq<Char>)
    requires sane(ss, b), transitive(ss), good(v)
    ensures path(ss, 0, v)(ss.len() - 1) == acc(ss, 0, v)
{
    let z = ss.len() as int;
    if acc(ss, 0, v) { let n = choose|n: int| 0 <= n && #[trigger] walk(ss, 0, z, z - 1, n)(0, v); lemma_walk_path(ss, b, z - 1, n, 0, v); }
    if path(ss, 0, v)(z - 1) {
        let w = Seq::<Char>::empty();
        lemma_here(ss, 0, z, z - 1, w);
        lemma_path_walk(ss, b, 0, v, z - 1, z - 1, w);
        assert(v + w =~= v);
    }
}
/// What the table says about the last state
pub proof fn lemma_compiled(e: Expression, ast: Ast)
    requires sane(e.states@, blocks_for(e.states@.len() as int)), transitive(e.states@), forall|v: Seq<Char>| #[trigger] acc(e.states@, 0, v) == accepts(ast, v), e.fuzz < MAX_SET_SIZE
    ensures e.wf(), forall|v: Seq<Char>| good(v) ==> #[trigger] path(e.states@, 0, v)(e.n() - 1) == accepts(ast, v), forall|w: Seq<Char>, f: int| good(w) && 0 <= f ==> #[trigger] e.reach(0, w, f)(e.n() - 1) == matches(e, ast, w, f)
{
    let ss = e.states@;
    let n = ss.len() as int;
    let b = blocks_for(n);
    assert forall|i: int| 0 <= i < e.n() implies #[trigger] state_wf(e.states@[i], e.n()) by { assert(state_sane(ss[i], n, b)); }
    assert forall|v: Seq<Char>| good(v) implies #[trigger] path(ss, 0, v)(n - 1) == accepts(ast, v) by { lemma_path(ss, b, v); assert(acc(ss, 0, v) == accepts(ast, v)); }
    assert forall|w: Seq<Char>, f: int| good(w) && 0 <= f implies #[trigger] e.reach(0, w, f)(n - 1) == matches(e, ast, w, f) by {
        e.lemma_reach(0, w, f, n - 1);
        if e.near(0, w, f, n - 1) { let v = choose|v: Seq<Char>| good(v) && #[trigger] path(ss, 0, v)(n - 1) && e.edits(w, v, f); assert(accepts(ast, v)); }
        if matches(e, ast, w, f) { let v = choose|v: Seq<Char>| good(v) && #[trigger] accepts(ast, v) && e.edits(w, v, f); assert(path(ss, 0, v)(n - 1)); }
    }
}
""")
    m.impl("impl Expression", {
        "from_ast": Fn(sig="""    requires plain(ast_root.root)
    ensures r.wf(), transitive(r.states@), r.fuzz == (if ast_root.options.fuzz is Some { ast_root.options.fuzz->0 } else { 0 }),
        r.ignore_word_boundaries == !(ast_root.options.explicit_word_boundaries == Some(true)), r.ignore_punctuation == !(ast_root.options.explicit_punctuation == Some(true)),
        forall|v: Seq<Char>| good(v) ==> #[trigger] path(r.states@, 0, v)(r.n() - 1) == accepts(ast_root.root, v),
        forall|w: Seq<Char>, f: int| good(w) && 0 <= f ==> #[trigger] r.reach(0, w, f)(r.n() - 1) == matches(r, ast_root.root, w, f)""",
            rules=[("assert!($x, $y)", "if !($x) { refuse(); }", "an expression that is too large is refused by a panic; what follows is only reached otherwise"),
                   ("vec![]", "Vec::new()", "a macro"), ("Char::WORD_END.into()", "CharBitset::from_char(Char::WORD_END)", "the trait function is verified as an inherent one of another name"),
                   ('format!("{}", ast_root)', "display(ast_root)", "the text is only used for output"), ("Self::optimize_states($e)", "optimize_states($e)", "an associated function is verified as a free one")],
            at=[("states.push($e);", "before", "        let ghost s1 = states@;"),
                ("states.push($e);", "after", "        let ghost s2 = states@; proof { assert(s2.drop_last() =~= s1); lemma_finished(s1, s2, ast_root.root); }"),
                ("expr }", "before", "        proof { assert forall|v: Seq<Char>| #[trigger] acc(expr.states@, 0, v) == accepts(ast_root.root, v) by { assert(acc(s2, 0, v) == acc(expr.states@, 0, v)); assert(acc(s2, 0, v) == accepts(ast_root.root, v)); } lemma_compiled(expr, ast_root.root); }")]),
    })
    return m
