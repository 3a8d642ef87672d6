//! Running the real noodle
use crate::*;
use noodle::parser::{Ast, ExpressionAst, ExpressionOptions, QueryAst};
use noodle::words::{Char, CharBitset, Word};
use noodle::{Expression, QueryEvaluator, QueryResponse};

pub fn to_class(m: u32) -> CharBitset {
    let mut c = CharBitset::EMPTY;
    for i in 0..28 {
        if m >> i & 1 == 1 {
            let ch: char = letter(i);
            c.union_with(CharBitset::from(ch));
        }
    }
    c
}

/// `None`: there is no direct equivalent (only through the parser)
pub fn to_ast(p: &Pat) -> Option<Ast> {
    let many = |ps: &[Pat]| ps.iter().map(to_ast).collect::<Option<Vec<_>>>();
    Some(match p {
        Pat::Cls(m) => Ast::CharClass(to_class(*m)),
        Pat::Alt(ps) => Ast::Alternatives(many(ps)?),
        Pat::Seq(ps) => Ast::Sequence(many(ps)?),
        Pat::Run(ps) => Ast::Substring(many(ps)?),
        Pat::Rep(p, min, max) => Ast::Repetition { term: Box::new(to_ast(p)?), min: *min, max: *max },
        _ => return None,
    })
}

pub fn build_direct(e: &Expr) -> Option<Expression> {
    let opt = |b: bool| if b { Some(true) } else { None };
    Some(Expression::from_ast(&ExpressionAst {
        root: to_ast(&e.pat)?,
        options: ExpressionOptions {
            explicit_word_boundaries: opt(e.explicit_spaces()),
            explicit_punctuation: opt(e.explicit_punct()),
            fuzz: e.fuzz,
        },
    }))
}

pub fn chars(s: &[u8]) -> Vec<Char> {
    s.iter().map(|&c| Char::from(letter(c))).collect()
}

/// The entries of a word list: (letters without the final space, tranche).
/// The score identifies the entry.
pub fn make_words(ws: &[(Vec<u8>, u8)]) -> Vec<Word> {
    ws.iter().enumerate().map(|(i, (s, t))| Word::new(&word_text(s), *t, i as u32)).collect()
}

pub fn phrase(ws: &[(Vec<u8>, u8)], ix: &[usize]) -> Vec<u8> {
    let mut s = vec![];
    for &i in ix {
        s.extend(&ws[i].0);
        s.push(27);
    }
    s
}

pub enum Mode {
    Direct,
    Text,
}

pub fn evaluator<'a>(exprs: &[Expr], mode: &Mode, words: &'a [Word], depth: usize, limit: Option<usize>) -> Result<QueryEvaluator<'a>, String> {
    let es: Vec<Expression> = match mode {
        Mode::Direct => exprs.iter().map(|e| build_direct(e).unwrap()).collect(),
        Mode::Text => {
            let text = query_text(exprs);
            let ast = QueryAst::new_from_str(&text).map_err(|e| format!("{text:?} does not parse: {e}"))?;
            ast.expressions.iter().map(Expression::from_ast).collect()
        }
    };
    Ok(QueryEvaluator::new(es, words, depth, limit))
}

pub fn query_text(exprs: &[Expr]) -> String {
    exprs.iter().map(|e| e.text()).collect::<Vec<_>>().join(";")
}

pub fn ids(m: &[Word]) -> Vec<usize> {
    m.iter().map(|w| w.score as usize).collect()
}

/// All reported phrases, in order
pub fn collect(q: QueryEvaluator) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for r in q {
        if let QueryResponse::Match(m) = r {
            out.push(ids(&m));
        }
    }
    out
}
