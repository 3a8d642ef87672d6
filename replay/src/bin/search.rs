//! search PROPERTY [--seed N] [--count N] [--seconds N] [--only I] [--log FILE] [--threads N]
//!
//! Runs the real noodle on generated cases, and compares it to the oracle. Case `I` only depends on
//! the seed and `I`. Prints one JSON object. Exit code 0: no difference, 1: `failure` describes one.
use noodle::parser::{ExpressionAst, QueryAst};
use noodle::words::{Char, Word};
use noodle::{Expression, QueryEvaluator, QueryResponse};
use oracle::run::*;
use oracle::*;
use std::collections::{BTreeSet, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a case reports if it holds: (number of comparisons, is it non-trivial)
type Res = Result<(usize, bool), String>;

struct Case {
    text: String,
    res: Box<dyn FnOnce() -> Res + std::panic::UnwindSafe>,
}

fn case(text: String, f: impl FnOnce() -> Res + std::panic::UnwindSafe + 'static) -> Case {
    Case { text, res: Box::new(f) }
}

type Entry = (Vec<u8>, u8);

fn show(ws: &[Entry]) -> String {
    let mut s: Vec<String> = ws
        .iter()
        .map(|(s, t)| if *t == 0 { format!("{:?}", word_text(s)) } else { format!("{:?}/{}", word_text(s), t) })
        .collect();
    let n = s.len();
    if n > 60 {
        s.truncate(60);
        s.push(format!("... ({n} words)"));
    }
    s.join(" ")
}

fn diff(ws: &[Entry], got: &[Vec<usize>], exp: &[Vec<usize>]) -> String {
    let text = |ix: &Vec<usize>| ix.iter().map(|&i| word_text(&ws[i].0)).collect::<Vec<_>>().join("+");
    let (g, e): (HashSet<_>, HashSet<_>) = (got.iter().cloned().collect(), exp.iter().cloned().collect());
    let list = |xs: Vec<&Vec<usize>>| format!("{} {:?}", xs.len(), xs.iter().take(5).map(|x| text(x)).collect::<Vec<_>>());
    let mut s = format!(
        "missing: {}; wrongly reported: {}",
        list(exp.iter().filter(|x| !g.contains(*x)).collect()),
        list(got.iter().filter(|x| !e.contains(*x)).collect())
    );
    if got.len() != g.len() {
        let mut seen = HashSet::new();
        s += &format!("; reported more than once: {}", list(got.iter().filter(|x| !seen.insert((*x).clone())).collect()));
    }
    s
}

fn small(r: &mut Rng, symbols: bool, text: bool, max_depth: usize) -> Pat {
    let depth = 1 + r.below(max_depth);
    gen_pat(r, &Gen { depth, symbols, text, width: 3, reps: 4 }, depth)
}

/// Pattern, and whether to go through the text
fn any_pat(r: &mut Rng, symbols: bool, long: bool) -> (Pat, Mode) {
    let g = Gen { depth: 2, symbols, text: false, width: 3, reps: 4 };
    if long {
        return (gen_long(r, &g), Mode::Direct);
    }
    if r.chance(1, 3) {
        for _ in 0..20 {
            let p = small(r, symbols, true, 3);
            if p.nesting() <= 3 && p.has_text() && p.text().len() < 60 {
                return (p, Mode::Text);
            }
        }
    }
    let mut d = 4;
    loop {
        let p = small(r, symbols, false, d);
        if p.size() <= 14 {
            return (p, Mode::Direct);
        }
        d = 2;
    }
}

fn related_words(r: &mut Rng, exprs: &[Expr], n: usize, edits: usize, maxlen: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for _ in 0..n {
        let mut s = vec![];
        r.pick(exprs).pat.sample(r, &mut s);
        s.truncate(maxlen);
        for _ in 0..r.below(edits + 1) {
            mutate(&mut s, r);
        }
        if r.chance(1, 8) {
            s.insert(r.below(s.len() + 1), 26);
        }
        if r.chance(1, 10) {
            s.insert(r.below(s.len() + 1), 27);
        }
        // The normalization of words can't produce these from the text
        out.push(s);
    }
    out
}

fn options(r: &mut Rng, e: &mut Expr) {
    e.spaces = r.chance(1, 6);
    e.punct = r.chance(1, 6);
}

fn mode_of(e: &[Expr], mode: Mode) -> Mode {
    if e.iter().all(|e| e.pat.has_text() && e.pat.nesting() <= 3 && to_ast(&e.pat).is_some()) {
        mode
    } else {
        Mode::Direct
    }
}

/// Compare the single-word results with the oracle
fn check_words(exprs: Vec<Expr>, mode: Mode, ws: Vec<Entry>) -> Res {
    let words = make_words(&ws);
    let got = collect(evaluator(&exprs, &mode, &words, 1, None)?);
    let exp: Vec<Vec<usize>> =
        (0..ws.len()).filter(|&i| exprs.iter().all(|e| e.matches(&phrase(&ws, &[i])))).map(|i| vec![i]).collect();
    if got != exp {
        return Err(if got.len() == exp.len() && got.iter().collect::<BTreeSet<_>>() == exp.iter().collect() {
            "words are reported in another order than they are listed".into()
        } else {
            diff(&ws, &got, &exp)
        });
    }
    Ok((ws.len(), !exp.is_empty() && exp.len() < ws.len()))
}

fn word_case(exprs: Vec<Expr>, mode: Mode, ws: Vec<Entry>) -> Case {
    let via = if let Mode::Text = mode { "text" } else { "ast" };
    let text = format!("query ({via}): {}   words: {}", query_text(&exprs), show(&ws));
    case(text, move || check_words(exprs, mode, ws))
}

fn flat(ws: Vec<Vec<u8>>) -> Vec<Entry> {
    ws.into_iter().map(|w| (w, 0)).collect()
}

fn base_words() -> Vec<Vec<u8>> {
    all_strings(&[0, 1, 2], 4)
}

// ---- C01: single words match iff they are in the language of the pattern

/// Every pattern of a small grammar, one after the other
fn enumerate(mut i: usize, depth: usize) -> Pat {
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    fn go(depth: usize, take: &mut dyn FnMut(usize) -> usize) -> Pat {
        let leaf = |k: usize| Pat::Cls([1, 2, LETTERS][k]);
        if depth == 0 {
            return leaf(take(3));
        }
        match take(12) {
            0 => leaf(take(3)),
            1 => Pat::Seq(vec![go(depth - 1, take), go(depth - 1, take)]),
            2 => Pat::Alt(vec![go(depth - 1, take), go(depth - 1, take)]),
            3 => Pat::Run(vec![go(depth - 1, take), go(depth - 1, take)]),
            4 => Pat::Rep(Box::new(go(depth - 1, take)), 0, Some(1)),
            5 => Pat::Rep(Box::new(go(depth - 1, take)), 0, None),
            6 => Pat::Rep(Box::new(go(depth - 1, take)), 1, None),
            7 => Pat::Rep(Box::new(go(depth - 1, take)), 2, None),
            8 => Pat::Rep(Box::new(go(depth - 1, take)), 1, Some(2)),
            9 => Pat::Rep(Box::new(go(depth - 1, take)), 0, Some(2)),
            10 => Pat::Rep(Box::new(go(depth - 1, take)), 2, Some(2)),
            _ => Pat::Seq(vec![leaf(take(3)), go(depth - 1, take)]),
        }
    }
    go(depth, &mut take)
}

fn c01(i: usize, r: &mut Rng) -> Case {
    if i < 4000 {
        let p = if i < 1500 { enumerate(i, 2) } else { enumerate(r.next() as usize, 3) };
        let mode = if p.size() < 9 && r.chance(1, 3) { mode_of(&[Expr::plain(p.clone())], Mode::Text) } else { Mode::Direct };
        return word_case(vec![Expr::plain(p)], mode, flat(base_words()));
    }
    let long = r.chance(1, 8);
    let (p, mode) = any_pat(r, false, long);
    let e = vec![Expr::plain(p)];
    let mut ws = related_words(r, &e, if long { 25 } else { 30 }, 2, 90);
    if !long {
        ws.extend(base_words());
    }
    ws.sort();
    ws.dedup();
    word_case(e, mode, flat(ws))
}

// ---- C02: fuzzy matches are within the edit distance

fn c02(i: usize, r: &mut Rng) -> Case {
    let long = i > 300 && r.chance(1, 20);
    let fuzz = if long { r.below(3) } else { r.below(5) };
    let (p, mode) = if i < 300 {
        // plain words
        (Pat::Seq((0..1 + r.below(7)).map(|_| Pat::Cls(1 << r.below(4))).collect()), Mode::Text)
    } else {
        let sy = r.chance(1, 4);
        any_pat(r, sy, long)
    };
    let mut e = Expr::plain(p);
    e.fuzz = Some(fuzz);
    options(r, &mut e);
    let e = vec![e];
    let mode = mode_of(&e, mode);
    let mut ws = related_words(r, &e, if long { 12 } else { 40 }, fuzz + 2, 60);
    if !long {
        ws.extend(all_strings(&[0, 1], 3));
    }
    ws.sort();
    ws.dedup();
    word_case(e, mode, flat(ws))
}

// ---- C03: the result of a word doesn't depend on the other words

fn c03(_i: usize, r: &mut Rng) -> Case {
    let long = r.chance(1, 10);
    let sy = r.chance(1, 3);
    let (p, mode) = any_pat(r, sy, long);
    let mut e = Expr::plain(p);
    options(r, &mut e);
    if r.chance(1, 3) {
        e.fuzz = Some(r.below(3));
    }
    let mode = mode_of(&[e.clone()], mode);
    let mut ws = related_words(r, &[e.clone()], 25, 3, 60);
    // words that share prefixes, repeated words, prefixes of each other
    for _ in 0..25 {
        let mut w = r.pick(&ws).clone();
        match r.below(4) {
            0 => w.truncate(r.below(w.len() + 1)),
            1 => {
                w.truncate(r.below(w.len() + 1));
                let o = r.pick(&ws).clone();
                w.extend(&o[r.below(o.len() + 1)..]);
            }
            2 => w.push(r.below(4) as u8),
            _ => {}
        }
        w.truncate(90);
        ws.push(w);
    }
    match r.below(4) {
        0 => ws.sort(),
        1 => {
            ws.sort();
            ws.reverse();
        }
        _ => r.shuffle(&mut ws),
    }
    let depth = if r.chance(1, 2) { 1 } else { 2 };
    let via = if let Mode::Text = mode { "text" } else { "ast" };
    let text = format!("query ({via}), depth {depth}: {}   words: {}", e.text(), show(&flat(ws.clone())));
    case(text, move || {
        let ws = flat(ws);
        let words = make_words(&ws);
        let es = vec![e];
        let mut got: Vec<usize> = vec![];
        // Single words come first, and are complete once anything else is reported
        for m in evaluator(&es, &mode, &words, depth, None)? {
            match m {
                QueryResponse::Match(m) if m.len() == 1 => got.push(m[0].score as usize),
                _ => break,
            }
        }
        let mut yes = 0;
        for i in 0..ws.len() {
            let one = make_words(&ws[i..i + 1]);
            let alone = collect(evaluator(&es, &mode, &one, 1, None)?).len();
            let n = got.iter().filter(|&&x| x == i).count();
            if alone != n {
                return Err(format!("{:?} (entry {i}) is reported {n} times within the list, but {alone} times on its own", word_text(&ws[i].0)));
            }
            if (es[0].matches(&phrase(&ws, &[i])) as usize) != n {
                return Err(format!("{:?} (entry {i}) is reported {n} times", word_text(&ws[i].0)));
            }
            yes += n;
        }
        if got.windows(2).any(|w| w[0] >= w[1]) {
            return Err("words are reported in another order than they are listed".into());
        }
        Ok((ws.len(), yes > 0 && yes < ws.len()))
    })
}

// ---- C04: a word has to match every expression

fn some_exprs(r: &mut Rng, n: usize, symbols: bool) -> (Vec<Expr>, Mode) {
    let mut mode = Mode::Direct;
    let es: Vec<Expr> = (0..n)
        .map(|_| {
            let mut d = 1 + r.below(3);
            let (p, m) = loop {
                let text = r.chance(1, 2);
                let p = gen_pat(r, &Gen { depth: d, symbols, text, width: 3, reps: 3 }, d);
                if p.size() <= 9 {
                    break (p, text);
                }
                d = 1 + r.below(2);
            };
            if m {
                mode = Mode::Text;
            }
            let mut e = Expr::plain(p);
            if r.chance(1, 3) {
                options(r, &mut e);
            }
            if r.chance(1, 4) {
                e.fuzz = Some(r.below(3));
            }
            e
        })
        .collect();
    let mode = mode_of(&es, mode);
    (es, mode)
}

fn c04(_i: usize, r: &mut Rng) -> Case {
    let n = 2 + r.below(3);
    let sy = r.chance(1, 4);
    let (es, mode) = some_exprs(r, n, sy);
    let mut ws = related_words(r, &es, 30, 2, 40);
    ws.extend(all_strings(&[0, 1, 2], 3));
    if r.chance(1, 2) {
        ws.sort();
    } else {
        r.shuffle(&mut ws);
    }
    word_case(es, mode, flat(ws))
}

// ---- C05/C06: the reported phrases are exactly the sequences of words that match

fn tranches(r: &mut Rng, ws: Vec<Vec<u8>>) -> Vec<Entry> {
    let n = 1 + r.below(4);
    let mut ws: Vec<Entry> = ws.into_iter().map(|w| (w, (r.below(n) * if n > 2 { 2 } else { 1 }) as u8)).collect();
    ws.sort_by_key(|w| w.1);
    ws
}

fn phrase_setup(r: &mut Rng) -> (Vec<Expr>, Mode, Vec<Entry>, usize) {
    let n = if r.chance(1, 2) { 1 } else { 1 + r.below(3) };
    let sy = r.chance(1, 3);
    let (mut es, mode) = some_exprs(r, n, sy);
    if r.chance(1, 6) {
        // enumeration
        es[0] = Expr::plain(Pat::Seq((0..1 + r.below(3)).map(|_| Pat::Num(1 + r.below(3))).collect()));
        es.truncate(1);
    } else if r.chance(1, 5) {
        // sequence of literals: this has a lot of states, but few phrases
        let mut s = vec![];
        for _ in 0..r.below(12) + 2 {
            s.push(Pat::Cls(1 << r.below(2)));
        }
        es[0].pat = Pat::Seq(s);
    }
    let depth = 1 + r.below(4);
    let k = match depth {
        4 => 1 + r.below(5),
        3 => 1 + r.below(7),
        _ => 1 + r.below(12),
    };
    let mut ws: Vec<Vec<u8>> = vec![];
    while ws.len() < k {
        // pieces of matching strings
        let mut s = vec![];
        r.pick(&es).pat.sample(r, &mut s);
        s.truncate(40);
        if r.chance(1, 3) {
            mutate(&mut s, r);
        }
        let s: Vec<u8> = s.into_iter().filter(|&c| c != 27).collect();
        match r.below(5) {
            0 => ws.push((0..1 + r.below(3)).map(|_| r.below(3) as u8).collect()),
            1 => ws.push(s),
            _ => {
                let a = r.below(s.len() + 1);
                let b = a + r.below(s.len() - a + 1);
                ws.push(s[..a].to_vec());
                ws.push(s[a..b].to_vec());
                ws.push(s[b..].to_vec());
            }
        }
        ws.retain(|w| !w.is_empty());
    }
    ws.truncate(k);
    if r.chance(1, 10) {
        let w = r.pick(&ws).clone();
        ws[0] = w;
    }
    ws.sort();
    let ws = tranches(r, ws);
    let mode = if es.iter().any(|e| to_ast(&e.pat).is_none()) { Mode::Text } else { mode };
    (es, mode, ws, depth)
}

fn brute(es: &[Expr], ws: &[Entry], depth: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        level = level
            .iter()
            .flat_map(|p| {
                (0..ws.len()).map(move |i| {
                    let mut p = p.clone();
                    p.push(i);
                    p
                })
            })
            .collect();
        out.extend(level.iter().filter(|p| es.iter().all(|e| e.matches(&phrase(ws, p)))).cloned());
    }
    out
}

/// Words which become useless one after the other, each to another pattern
fn chain_case(r: &mut Rng) -> Case {
    let g = 3 + r.below(6);
    let n = if r.chance(1, 2) { 10 + r.below(40) } else { 100 + r.below(60) };
    let letter = |group: usize, k: usize| b'a' + (group * (24 / g) + k) as u8;
    let per = 24 / g;
    let ws: Vec<String> = (0..n).map(|i| format!("{}{}", letter(i % g, i / g % per) as char, (b'a' + (i / g / per) as u8) as char)).collect();
    let mut lists: Vec<HashSet<String>> = (0..g).map(|_| HashSet::from(["yyzz".to_string()])).collect();
    let others: Vec<String> = (0..g)
        .map(|p| (0..g).filter(|&o| o != p && (o + 1) % g != p).flat_map(|o| (0..per).map(move |k| letter(o, k) as char)).collect())
        .collect();
    for i in 1..n {
        lists[i % g].insert(format!("{}{}", ws[i - 1], ws[i]));
    }
    lists[n % g].insert(format!("{}zz", ws[n - 1]));
    let query = (0..g)
        .map(|p| {
            let mut l: Vec<_> = lists[p].iter().cloned().collect();
            l.sort();
            format!("({}|[{}].zz)", l.join("|"), others[p])
        })
        .collect::<Vec<_>>()
        .join(";");
    let mut list: Vec<String> = ws[1..].to_vec();
    if r.chance(1, 4) {
        let i = r.below(list.len());
        list.remove(i);
    }
    if r.chance(1, 4) {
        // Nothing is missing
        list.push(ws[0].clone());
        list.push("zz".to_string());
    }
    list.push("yy".to_string());
    list.push("zz".to_string());
    let text = format!("query, up to 2 words: {query}   words: {}", list.join(" "));
    case(text, move || {
        let words: Vec<Word> = list.iter().enumerate().map(|(i, w)| Word::new(w, 0, i as u32)).collect();
        let ast = noodle::parser::QueryAst::new_from_str(&query).map_err(|e| format!("{query:?} does not parse: {e}"))?;
        let mut q = QueryEvaluator::from_ast(&ast, &words);
        q.set_search_depth_limit(2);
        let mut got = collect(q);
        let mut exp = vec![];
        for i in 0..list.len() {
            for j in 0..list.len() {
                let s = format!("{}{}", list[i], list[j]);
                let first = s.chars().next().unwrap();
                if (0..g).all(|p| lists[p].contains(&s) || (others[p].contains(first) && s.ends_with("zz"))) {
                    exp.push(vec![i, j]);
                }
            }
        }
        got.sort();
        exp.sort();
        if got != exp {
            let show = |v: &[Vec<usize>]| v.iter().take(10).map(|p| p.iter().map(|&i| list[i].clone()).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join(" ");
            return Err(format!("reported: {}; expected: {}", show(&got), show(&exp)));
        }
        Ok((list.len() * list.len(), true))
    })
}

fn phrases_case(r: &mut Rng, sound: bool) -> Case {
    let (es, mode, ws, depth) = phrase_setup(r);
    let via = if let Mode::Text = mode { "text" } else { "ast" };
    let text = format!("query ({via}), up to {depth} words: {}   words: {}", query_text(&es), show(&ws));
    case(text, move || {
        let words = make_words(&ws);
        let got = collect(evaluator(&es, &mode, &words, depth, None)?);
        if sound {
            for p in &got {
                let w = p.iter().map(|&i| word_text(&ws[i].0)).collect::<Vec<_>>().join("+");
                if p.is_empty() || p.len() > depth {
                    return Err(format!("{w} has {} words", p.len()));
                }
                if let Some(e) = es.iter().find(|e| !e.matches(&phrase(&ws, p))) {
                    return Err(format!("{w} is reported, but does not match {}", e.text()));
                }
            }
            Ok((got.len(), got.iter().any(|p| p.len() > 1)))
        } else {
            let mut exp = brute(&es, &ws, depth);
            let mut sorted = got.clone();
            sorted.sort();
            exp.sort();
            if sorted != exp {
                return Err(diff(&ws, &got, &exp));
            }
            let total: usize = (1..=depth as u32).map(|d| ws.len().pow(d)).sum();
            Ok((total, exp.iter().any(|p| p.len() > 1) && exp.len() < total))
        }
    })
}

// ---- C07: limits

fn c07(_i: usize, r: &mut Rng) -> Case {
    let (es, mode, ws, depth) = phrase_setup(r);
    let limit = if r.chance(1, 8) { 300 } else { r.below(9) };
    let pragma = r.chance(1, 3) && matches!(mode, Mode::Text);
    let text = format!("query, up to {depth} words, limit {limit}: {}   words: {}", query_text(&es), show(&ws));
    case(text, move || {
        let words = make_words(&ws);
        let all = collect(evaluator(&es, &mode, &words, depth, None)?);
        let mut got = vec![];
        let mut complete = 0;
        let ast;
        let q = if pragma {
            let t = format!("{};#words {depth};#limit {limit}", query_text(&es));
            ast = QueryAst::new_from_str(&t).map_err(|e| e.to_string())?;
            QueryEvaluator::from_ast(&ast, &words)
        } else {
            evaluator(&es, &mode, &words, depth, Some(limit))?
        };
        let mut q = q;
        while let Some(m) = q.next() {
            match m {
                QueryResponse::Match(m) => {
                    if complete > 0 {
                        return Err("match after completion".into());
                    }
                    got.push(ids(&m))
                }
                QueryResponse::Complete(_) => complete += 1,
                QueryResponse::Timeout => return Err("timeout without a deadline".into()),
                QueryResponse::Logs(_) => {}
            }
        }
        if complete != 1 {
            return Err(format!("completed {complete} times"));
        }
        if q.next().is_some() || !matches!(q.next_within_deadline(None), QueryResponse::Complete(_)) {
            return Err("not complete after completion".into());
        }
        let n = all.len().min(limit);
        if got != all[..n] {
            return Err(format!("limit {limit}: {} results, expected the first {n} of {}; {}", got.len(), all.len(), diff(&ws, &got, &all[..n])));
        }
        if let Some(p) = all.iter().find(|p| p.len() > depth) {
            return Err(format!("{} words in a phrase", p.len()));
        }
        // A smaller word limit gives exactly the shorter phrases
        for d in 1..depth {
            let mut a = collect(evaluator(&es, &mode, &words, d, None)?);
            let mut b: Vec<_> = all.iter().filter(|p| p.len() <= d).cloned().collect();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("with up to {d} words, compared to the results with up to {depth} words: {}", diff(&ws, &a, &b)));
            }
        }
        Ok((all.len() + 1, all.len() > limit && limit > 0))
    })
}

// ---- C08: interrupted searches

fn c08(i: usize, r: &mut Rng) -> Case {
    let big = i % 4 == 0;
    let (es, mode, mut ws, mut depth) = phrase_setup(r);
    if big {
        // enough words to be interrupted in between
        depth = 1 + r.below(2);
        let mut more = related_words(r, &es, 800, 3, 12);
        more.extend(all_strings(&[0, 1, 2], 5));
        more.retain(|w| !w.is_empty());
        more.truncate(if depth == 1 { 1200 } else { 700 });
        more.sort();
        ws = more.into_iter().map(|w| (w, 0)).collect();
    }
    let seed = r.next();
    let text = format!("query, up to {depth} words, interrupted ({seed}): {}   words: {}", query_text(&es), show(&ws));
    case(text, move || {
        let mut r = Rng::new(seed, 1);
        let words = make_words(&ws);
        let cap = Some(3000);
        let mut all = vec![];
        let mut q = evaluator(&es, &mode, &words, depth, cap)?;
        while let Some(m) = q.next() {
            if let QueryResponse::Match(m) = m {
                all.push(ids(&m))
            }
        }
        let mut got = vec![];
        let mut timeouts = 0;
        let mut last = 0;
        let mut q = evaluator(&es, &mode, &words, depth, cap)?;
        loop {
            let now = Instant::now();
            let deadline = match r.below(4) {
                // Deadlines in the past can't guarantee any progress, so have some others as well
                _ if last > 3 => None,
                0 => Some(now),
                1 => Some(now + Duration::from_micros(r.below(30) as u64)),
                2 => Some(now + Duration::from_micros(r.below(300) as u64)),
                _ => Some(now - Duration::from_micros(5)),
            };
            match q.next_within_deadline(deadline) {
                QueryResponse::Match(m) => {
                    got.push(ids(&m));
                    last = 0;
                }
                QueryResponse::Timeout => {
                    if deadline.is_none() {
                        return Err("timeout without a deadline".into());
                    }
                    if Some(Instant::now()) < deadline {
                        return Err("timeout before the deadline".into());
                    }
                    timeouts += 1;
                    last += 1;
                    let _ = q.progress();
                }
                QueryResponse::Logs(_) => {
                    let _ = q.progress();
                }
                QueryResponse::Complete(_) => break,
            }
            if got.len() > all.len() {
                break;
            }
        }
        if got != all {
            return Err(format!("interrupted {timeouts} times, {} results instead of {}: {}", got.len(), all.len(), diff(&ws, &got, &all)));
        }
        Ok((all.len() + 1, timeouts > 0 && !all.is_empty()))
    })
}

// ---- C09: anagrams

fn c09(_i: usize, r: &mut Rng) -> Case {
    let alphabet = 1 + r.below(4);
    let bank = |r: &mut Rng| -> Vec<u8> { (0..1 + r.below(5)).map(|_| r.below(alphabet) as u8).collect() };
    let kind = |r: &mut Rng, b: &[u8]| match r.below(5) {
        0 => Kind::Standard,
        1 => Kind::Super,
        2 => Kind::Sub,
        3 => Kind::TransAdd(r.below(4)),
        _ => Kind::TransDelete(r.below(b.len() + 2)),
    };
    let b = bank(r);
    let k = kind(r, &b);
    let ana = Pat::Ana(k, b);
    // An anagram that is delimited by letters which it can't contain
    let mark = || Pat::Cls(1 << 25);
    let delim = !matches!(k, Kind::Super | Kind::TransAdd(_));
    let (p, exact) = match r.below(8) {
        0 if delim => (Pat::Seq(vec![mark(), ana]), true),
        1 if delim => (Pat::Seq(vec![ana, mark()]), true),
        2 => (Pat::Seq(vec![mark(), ana, mark()]), delim),
        3 => {
            let b = bank(r);
            let k = kind(r, &b);
            (Pat::Seq(vec![ana, Pat::Ana(k, b)]), false)
        }
        4 => {
            let p = small(r, false, true, 1);
            (if r.chance(1, 2) { Pat::Seq(vec![ana, p]) } else { Pat::Seq(vec![p, ana]) }, false)
        }
        5 => match r.below(3) {
            0 => (Pat::Rep(Box::new(ana), 0, Some(1)), true),
            1 => (Pat::Rep(Box::new(ana), r.below(2), None), false),
            _ => (Pat::Alt(vec![ana, Pat::Cls(1 << r.below(3))]), false),
        },
        _ => (ana, true),
    };
    let e = vec![Expr::plain(p)];
    let mut ws = related_words(r, &e, 40, 2, 12);
    ws.extend(all_strings(&[0, 1, 2, 3][..alphabet.min(3)], 4));
    ws.retain(|w| !w.contains(&27));
    ws.sort();
    ws.dedup();
    let ws = flat(ws);
    let text = format!("query: {}   words: {}", query_text(&e), show(&ws));
    case(text, move || {
        if exact {
            return check_words(e, Mode::Text, ws);
        }
        // Elsewhere, there may be false positives but no false negatives
        let words = make_words(&ws);
        let got = collect(evaluator(&e, &Mode::Text, &words, 1, None)?);
        let exp: Vec<Vec<usize>> = (0..ws.len()).filter(|&i| e[0].matches(&phrase(&ws, &[i]))).map(|i| vec![i]).collect();
        match exp.iter().find(|x| !got.contains(x)) {
            Some(x) => Err(format!("{:?} is missing", word_text(&ws[x[0]].0))),
            None => Ok((ws.len(), !exp.is_empty() && exp.len() < ws.len())),
        }
    })
}

// ---- C10: normalization of words

/// (text, what it is normalized to: the letters, `'` for other symbols, and `_` for spaces)
const PIECES: &[(&str, &str)] = &[
    ("a", "a"), ("b", "b"), ("z", "z"), ("m", "m"), ("A", "a"), ("Q", "q"), ("Z", "z"), ("N", "n"), ("n", "n"), ("y", "y"),
    (" ", "_"), ("_", "_"), ("-", "'"), ("'", "'"), (".", "'"), ("&", "'"), ("/", "'"), ("@", "'"), ("[", "'"), ("`", "'"), ("{", "'"),
    ("1", "'"), ("0", "'"), ("9", "'"), ("!", "'"), ("é", "e"), ("É", "e"), ("è", "e"), ("ê", "e"), ("ë", "e"), ("à", "a"), ("å", "a"), ("Å", "a"),
    ("ç", "c"), ("Ç", "c"), ("ñ", "n"), ("Ñ", "n"), ("ö", "o"), ("Ö", "o"), ("ü", "u"), ("Ü", "u"), ("ž", "z"), ("š", "s"), ("ő", "o"),
    ("ṩ", "s"), ("ǭ", "o"), ("e\u{301}", "e"), ("o\u{328}\u{304}", "o"), ("æ", "ae"), ("Æ", "ae"), ("œ", "oe"), ("Œ", "oe"), ("ǽ", "ae"),
    ("ﬁ", "fi"), ("ﬃ", "ffi"), ("ß", "ss"), ("ﬆ", "st"), ("Ｋ", "k"), ("ｋ", "k"), ("\u{212A}", "k"), ("\u{212B}", "a"), ("ⅷ", "viii"), ("²", "'"),
    ("ŉ", "'n"), ("ĳ", "ij"), ("λ", "'"), ("д", "'"), ("你", "'"), ("ø", "'"), ("ð", "'"), ("’", "'"), ("—", "'"), ("…", "'''"), ("\u{a0}", "_"), ("İ", "i"),
];

fn c10(i: usize, r: &mut Rng) -> Case {
    let mut t = String::new();
    let mut exp = String::new();
    if i < PIECES.len() {
        t = PIECES[i].0.into();
        exp = PIECES[i].1.into();
    } else if i < PIECES.len() + 128 {
        let c = (i - PIECES.len()) as u8 as char;
        t.push(c);
        exp.push(match c {
            'a'..='z' => c,
            'A'..='Z' => c.to_ascii_lowercase(),
            ' ' | '_' => '_',
            _ => '\'',
        });
    } else {
        for _ in 0..r.below(9) {
            let (a, b) = r.pick(PIECES);
            t.push_str(a);
            exp.push_str(b);
        }
    }
    let (tranche, score) = (r.below(5) as u8, r.below(1000) as u32);
    case(format!("word {t:?}"), move || {
        exp.push('_');
        let w = Word::new(&t, tranche, score);
        let got: String = w.chars.iter().map(|c| c.into_char()).collect();
        let got2: String = w.chars.iter().map(|c| letter(c.as_index() as u8)).collect();
        if got != exp || got2 != exp {
            return Err(format!("{t:?} is normalized to {got:?}, expected {exp:?}"));
        }
        if w.text.as_ref() != t || w.tranche != tranche || w.score != score {
            return Err(format!("{t:?} is reported as {:?}", w.text));
        }
        // The normalized text normalizes to itself, and finds the word
        let w2 = Word::new(&got[..got.len() - 1], 0, 0);
        if w2.chars != w.chars {
            return Err(format!("{got:?} is not stable"));
        }
        // A query of the normalized letters finds it
        if got.chars().any(|c| c.is_ascii_lowercase()) && t.len() < 12 {
            let q: String = got[..got.len() - 1].into();
            let list = vec![w];
            let ast = QueryAst::new_from_str(&format!("{q} !_ !'")).map_err(|e| format!("{q:?}: {e}"))?;
            if QueryEvaluator::from_ast(&ast, &list).filter(|m| matches!(m, QueryResponse::Match(m) if m.len() == 1)).count() != 1 {
                return Err(format!("{q:?} does not find {t:?}"));
            }
        }
        Ok((1, t.len() > 1))
    })
}

// ---- C11: spaces and punctuation

fn c11(_i: usize, r: &mut Rng) -> Case {
    let n = if r.chance(1, 3) { 2 } else { 1 };
    let (mut es, mode) = some_exprs(r, n, true);
    for e in es.iter_mut() {
        e.fuzz = None;
        e.spaces = r.chance(1, 3);
        e.punct = r.chance(1, 3);
    }
    if r.chance(1, 6) {
        es[0].pat = Pat::Seq((0..1 + r.below(3)).map(|_| Pat::Num(r.below(4))).collect());
    } else if r.chance(1, 8) {
        es[0].pat = Pat::Superset((0..1 + r.below(3)).map(|_| Pat::Cls(gen_class(r, &Gen { depth: 0, symbols: true, text: true, width: 1, reps: 1 }))).collect());
    } else if r.chance(1, 8) {
        es[0].pat = Pat::Subset((0..1 + r.below(4)).map(|_| Pat::Cls(gen_class(r, &Gen { depth: 0, symbols: true, text: true, width: 1, reps: 1 }))).collect());
    }
    let text_only = es.iter().any(|e| to_ast(&e.pat).is_none());
    if text_only && es.len() > 1 {
        es.truncate(1);
    }
    let mode = if text_only { Mode::Text } else { mode_of(&es, mode) };
    let mut ws = related_words(r, &es, 40, 2, 20);
    for w in ws.iter_mut() {
        while r.chance(1, 3) {
            w.insert(r.below(w.len() + 1), 26 + r.below(2) as u8);
        }
    }
    ws.sort();
    ws.dedup();
    word_case(es, mode, flat(ws))
}

// ---- C12: the text of queries

/// A random expression with its text, written with all of the syntax
fn c12(i: usize, r: &mut Rng) -> Case {
    if i % 8 == 7 {
        return c12_query(r);
    }
    // An expression, through its text, as all of the constructs
    let leaf = |r: &mut Rng| -> Pat {
        match r.below(12) {
            0 => Pat::Subset((0..1 + r.below(4)).map(|_| Pat::Cls(1 << r.below(3))).collect()),
            1 => Pat::Superset((0..1 + r.below(3)).map(|_| Pat::Cls(1 << r.below(3))).collect()),
            2 => Pat::Run((0..1 + r.below(4)).map(|_| Pat::Cls(1 << r.below(3))).collect()),
            3 => Pat::Num(r.below(4)),
            _ => small(r, r.clone().chance(1, 3), true, 2),
        }
    };
    let n = 1 + r.below(3);
    let mut p = Pat::Seq((0..n).map(|_| leaf(r)).collect());
    if r.chance(1, 4) {
        p = Pat::Alt(vec![p, leaf(r)]);
    }
    if p.nesting() > 4 || p.text().len() > 60 {
        p = leaf(r);
    }
    let anagram = r.chance(1, 8);
    if anagram {
        let b: Vec<u8> = (0..1 + r.below(4)).map(|_| r.below(3) as u8).collect();
        let k = match r.below(5) {
            0 => Kind::Standard,
            1 => Kind::Super,
            2 => Kind::Sub,
            3 => Kind::TransAdd(r.below(4)),
            _ => Kind::TransDelete(r.below(b.len() + 2)),
        };
        p = Pat::Ana(k, b);
    }
    let mut e = Expr::plain(p);
    options(r, &mut e);
    if !anagram && r.chance(1, 4) {
        e.fuzz = Some(r.below(3));
    }
    let mut t = e.text();
    if !anagram && r.chance(1, 6) {
        // The options come in any order, and of several allowances the last one counts
        let mut o = vec![format!("!{}", r.below(4)), e.fuzz.map_or("!0".into(), |f| format!("!{f}"))];
        if e.spaces {
            o.insert(r.below(o.len() + 1), "!_".into());
        }
        if e.punct {
            o.insert(r.below(o.len() + 1), "!'".into());
        }
        t = format!("{} {}", e.pat.text(), o.join(*r.pick(&["", " "])));
    }
    // Case, spaces, and comments don't matter
    if r.chance(1, 4) {
        t = t.to_uppercase();
    }
    if r.chance(1, 4) {
        t = t.replace(')', " ) ").replace("^ )", "^)").replace(":- )", ":-)").replace(":+ )", ":+)").replace('*', " *").replace('|', " | ");
    }
    if r.chance(1, 3) {
        t = spaced(&t, r);
    }
    if r.chance(1, 6) {
        t = format!("  {t}  ");
    }
    if r.chance(1, 8) {
        t.push_str(*r.pick(&[" // comment", "--", " //", "-- comment"]));
    }
    let es = vec![e.clone()];
    let mut ws = related_words(r, &es, 30, 2, 20);
    ws.extend(all_strings(&[0, 1, 2], 3));
    ws.sort();
    ws.dedup();
    let ws = flat(ws);
    case(format!("query: {t:?}   words: {}", show(&ws)), move || {
        let words = make_words(&ws);
        let ast = QueryAst::new_from_str(&t).map_err(|e| format!("{t:?} does not parse: {e}"))?;
        let run = |ast: &QueryAst| -> Vec<Vec<usize>> {
            collect(QueryEvaluator::new(ast.expressions.iter().map(Expression::from_ast).collect(), &words, 1, None))
        };
        let got = run(&ast);
        let exp: Vec<Vec<usize>> = (0..ws.len()).filter(|&i| e.matches(&phrase(&ws, &[i]))).map(|i| vec![i]).collect();
        if got != exp {
            return Err(diff(&ws, &got, &exp));
        }
        // Printed expressions have the same meaning
        for x in ast.expressions.iter().filter(|_| ast.expressions.len() == 1) {
            let printed = x.to_string();
            if printed.len() > 80 || printed.matches('(').count() > 5 {
                continue;
            }
            // Some patterns can't be written
            if let Ok(again) = ExpressionAst::new_from_str(&printed) {
                let a = collect(QueryEvaluator::new(vec![Expression::from_ast(&again)], &words, 1, None));
                if a != got {
                    return Err(format!("it is printed as {printed:?}, which differs: {}", diff(&ws, &a, &got)));
                }
            } else if !printed.contains("()") {
                return Err(format!("it is printed as {printed:?}, which does not parse"));
            }
        }
        Ok((ws.len(), !exp.is_empty() && exp.len() < ws.len()))
    })
}

/// Macros, pragmas, and several lines
fn c12_query(r: &mut Rng) -> Case {
    let lit = |r: &mut Rng| -> Pat { Pat::Seq((0..1 + r.below(2)).map(|_| Pat::Cls(1 << r.below(3))).collect()) };
    let sep = if r.chance(1, 2) { "\n" } else { ";" };
    let mut lines: Vec<String> = vec![];
    let mut exprs = vec![];
    let depth = 1 + r.below(2);
    let limit = if r.chance(1, 3) { Some(1 + r.below(5)) } else { None };
    // A macro, which is replaced in later lines
    let body = Pat::Alt(vec![lit(r), lit(r)]);
    let before = r.chance(1, 4);
    if before {
        let p = lit(r);
        lines.push(p.text());
        exprs.push(Expr::plain(Pat::Seq(vec![p])));
    }
    lines.push(format!("{}={}", "MAC_1", body.text()));
    if r.chance(1, 3) {
        lines.push("".into());
    }
    let k = r.below(3);
    let (p, t) = match k {
        0 => (Pat::Seq(vec![body.clone(), Pat::Cls(LETTERS)]), "MAC_1.".to_string()),
        1 => (Pat::Rep(Box::new(body.clone()), 1, None), "MAC_1+".to_string()),
        _ => (Pat::Seq(vec![Pat::Cls(1), body.clone(), body]), "aMAC_1MAC_1".to_string()),
    };
    exprs.push(Expr::plain(p));
    lines.push(t);
    if r.chance(1, 4) {
        // A macro in the value of another one
        let body = exprs.last().unwrap().pat.clone();
        lines.push(format!("Q_={}", lines.last().unwrap()));
        lines.push("(Q_){,2}".into());
        exprs.push(Expr::plain(Pat::Rep(Box::new(body), 0, Some(2))));
    }
    // Of several directives, the last one counts
    if r.chance(1, 4) {
        lines.insert(r.below(lines.len() + 1), format!("#words {}", 1 + r.below(3)));
    }
    if limit.is_some() && r.chance(1, 2) {
        lines.insert(r.below(lines.len() + 1), format!("#limit {}", r.below(9)));
    }
    let mut dict = None;
    for _ in 0..[0, 0, 1, 2][r.below(4)] {
        let name = *r.pick(&["default", "wiki-titles", "npl-allwords2", "a.b", "x_y'z", "Pokemon", "2-2", "ionary"]);
        let x = *r.pick(&["#dict", "#dictionary", "#DICT", "#Dictionary"]);
        lines.push(format!("{x} {name}"));
        dict = Some(name.to_string());
    }
    if let Some(l) = limit {
        let x = *r.pick(&["#limit", "#LIMIT", "#Limit"]);
        lines.push(format!("{x} {l}"));
    }
    lines.push(format!("{} {depth}", r.pick(&["#words", "#WORDS"])));
    let quiet = r.chance(1, 3);
    if quiet {
        lines.push("#quiet".into());
    }
    for l in lines.iter_mut() {
        if r.chance(1, 12) {
            l.push_str(*r.pick(&[" // a note", " /* a note */", "  ", " -- abc"]));
        }
    }
    let mut ws = related_words(r, &exprs, 8, 1, 6);
    ws.extend(all_strings(&[0, 1], 2));
    ws.retain(|w| !w.is_empty() && !w.contains(&27) && !w.contains(&26));
    let own = r.chance(1, 3);
    let mut list = ws.clone();
    if own {
        // Its own word list
        lines.push("#wordlist".into());
        list = list.into_iter().take(6).collect();
        for w in &list {
            let t = word_text(w);
            lines.push(if r.chance(1, 3) { format!("  {t} ") } else { t });
        }
    }
    list.sort();
    list.dedup();
    let t = lines.join(sep);
    case(format!("query: {t:?}   words: {}", show(&flat(ws.clone()))), move || {
        let texts = |ws: &[Vec<u8>]| -> Vec<Word> {
            let mut v: Vec<Word> = ws.iter().enumerate().map(|(i, w)| Word::new(&word_text(w), 0, i as u32)).collect();
            v.sort();
            v
        };
        let mut uniq = ws.clone();
        uniq.sort();
        uniq.dedup();
        let words = texts(&uniq);
        let ast = QueryAst::new_from_str(&t).map_err(|e| format!("{t:?} does not parse: {e}"))?;
        if ast.options.dictionary != dict || ast.options.quiet != quiet.then_some(true) || ast.options.max_words != Some(depth) || ast.options.results_limit != limit {
            return Err(format!("options: {:?} {:?} {:?} {:?}", ast.options.dictionary, ast.options.quiet, ast.options.max_words, ast.options.results_limit));
        }
        let mut got: Vec<String> = vec![];
        for m in QueryEvaluator::from_ast(&ast, &words) {
            if let QueryResponse::Match(m) = m {
                got.push(m.iter().map(|w| w.text.to_string()).collect::<Vec<_>>().join("+"));
            }
        }
        let n = got.len();
        let set: BTreeSet<String> = got.into_iter().collect();
        let source = if own { &list } else { &uniq };
        let entries = flat(source.clone());
        let exp: BTreeSet<String> = brute(&exprs, &entries, depth)
            .into_iter()
            .map(|p| p.iter().map(|&i| word_text(&entries[i].0)).collect::<Vec<_>>().join("+"))
            .collect();
        let cap = limit.unwrap_or(300);
        let dup = own && t.matches('\n').count() + t.matches(';').count() > 0;
        if exp.len() <= cap && !dup && n > cap {
            return Err(format!("{n} results, limit {cap}"));
        }
        if !set.is_subset(&exp) {
            return Err(format!("wrong results: {:?}", set.difference(&exp).take(5).collect::<Vec<_>>()));
        }
        if n < cap && set != exp {
            return Err(format!("missing: {:?}", exp.difference(&set).take(5).collect::<Vec<_>>()));
        }
        if n > cap {
            return Err(format!("{n} results with a limit of {cap}"));
        }
        Ok((1, !set.is_empty()))
    })
}

// ---- C13: nothing goes out of bounds

fn c13(i: usize, r: &mut Rng) -> Case {
    // Random text
    if i % 3 == 0 {
        let mut t = String::new();
        for _ in 0..r.below(14) {
            t.push_str(r.pick(&[
                "a", "b", "c", ".", "[ab]", "[^a]", "[a-c]", "[C-a]", "(", ")", "|", "*", "+", "?", "{2}", "{,3}", "{1,}", "{3,1}", "<ab>", "<abc->", "<a+2>", "<ab-9>",
                "(ab:^)", "(ab:-)", "(ab:+)", " 3 ", "0", "_", "'", " !_", " !'", " !1", " !2", "[^a-z]", "é", "\"", "99999999999999999999999", "{4000000000}", "<ab+99999999999999999999>",
            ]));
        }
        match r.below(12) {
            0 => t = (*r.pick(&["#words 2", "#limit 3", "#quiet", "M=ab", "//", " ", "#wordlist\nab", "-- c", "/* c */"])).to_string(),
            1 => t = spaced(&t, r),
            2 => t.push_str(*r.pick(&[";#words 1", ";#limit 0", "\n#quiet", "\n//", " ", ";#wordlist\nab\n", " -- c"])),
            _ => (),
        }
        return case(format!("query: {t:?}"), move || {
            let words = make_words(&flat(all_strings(&[0, 1, 2], 2)));
            let Ok(ast) = QueryAst::new_from_str(&t) else { return Ok((1, false)) };
            let mut n = 0;
            if ast.expressions.is_empty() {
                // A query without patterns, too, has to deliver something, or be refused
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut q = QueryEvaluator::from_ast(&ast, &words);
                    q.set_search_depth_limit(1);
                    collect(q).len()
                }));
                if let Err(m) = r {
                    return Err(format!("{t:?} panics: {}", panic_text(&m)));
                }
            }
            for e in &ast.expressions {
                // A refusal of an oversized expression is fine
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| collect(QueryEvaluator::new(vec![Expression::from_ast(e)], &words, 2, Some(200))).len()));
                match r {
                    Ok(_) => n += 1,
                    Err(m) => {
                        let m = panic_text(&m);
                        if !m.contains("too complex") && !m.contains("too fuzzy") {
                            return Err(format!("{t:?} panics: {m}"));
                        }
                    }
                }
            }
            Ok((n, n > 0))
        });
    }
    // Large patterns, with sizes around the block sizes, and words of any length
    let (e, mode) = if i % 3 == 1 {
        let k = *r.pick(&[14, 15, 16, 29, 30, 31, 32, 33, 34, 61, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128]);
        let p = match r.below(4) {
            0 => Pat::Seq((0..k).map(|_| Pat::Cls(gen_class(r, &Gen { depth: 0, symbols: true, text: true, width: 1, reps: 1 }))).collect()),
            1 => Pat::Rep(Box::new(Pat::Cls(LETTERS)), 0, Some(k)),
            2 => Pat::Rep(Box::new(Pat::Cls(1)), k, Some(k)),
            _ => Pat::Run((0..k).map(|_| Pat::Cls(1 << r.below(2))).collect()),
        };
        let mut e = Expr::plain(p);
        if r.chance(1, 3) {
            e.fuzz = Some(r.below(3));
        }
        (vec![e], Mode::Direct)
    } else {
        let n = 1 + r.below(3);
        some_exprs(r, n, true)
    };
    let mut ws = related_words(r, &e, 8, 3, 140);
    ws.push(vec![]);
    r.shuffle(&mut ws);
    let depth = 1 + r.below(2);
    let ws = tranches(r, ws);
    let text = format!("query, up to {depth} words: {}   words: {}", query_text(&e), show(&ws));
    case(text, move || {
        let words = make_words(&ws);
        let mut got = collect(evaluator(&e, &mode, &words, depth, None)?);
        let mut exp = brute(&e, &ws, depth);
        got.sort();
        exp.sort();
        if got != exp {
            return Err(diff(&ws, &got, &exp));
        }
        Ok((ws.len(), !exp.is_empty()))
    })
}

// ---- C14: character classes

fn c14(i: usize, r: &mut Rng) -> Case {
    let mut t = String::from("[");
    let invert;
    let mut m: u32 = 0;
    let ls: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    if i < 2 * 52 * 52 {
        // every range
        invert = i % 2 == 1;
        let (a, b) = (ls[i / 2 / 52], ls[i / 2 % 52]);
        if invert {
            t.push('^');
        }
        t.push_str(&format!("{a}-{b}"));
        for c in a.to_ascii_lowercase()..=b.to_ascii_lowercase() {
            m |= 1 << (c as u8 - b'a');
        }
    } else {
        invert = r.chance(1, 3);
        if invert {
            t.push('^');
        }
        for _ in 0..1 + r.below(6) {
            match r.below(5) {
                0 => {
                    let a = r.below(26) as u8;
                    let b = a + r.below(26 - a as usize) as u8;
                    t.push_str(&format!("{}-{}", letter(a), letter(b)));
                    (a..=b).for_each(|c| m |= 1 << c);
                }
                1 => {
                    let (c, s) = *r.pick(&[('_', SPACE), ('\'', PUNCT)]);
                    t.push(c);
                    m |= s;
                }
                _ => {
                    let c = *r.pick(&ls);
                    t.push(c);
                    m |= 1 << (c.to_ascii_lowercase() as u8 - b'a');
                }
            }
        }
    }
    t.push(']');
    if i >= 2 * 52 * 52 && r.chance(1, 4) {
        t = spaced(&t, r);
    }
    if i >= 2 * 52 * 52 && r.chance(1, 20) {
        // without brackets
        let (a, b) = *r.pick(&[(".", LETTERS), ("_", SPACE), ("'", PUNCT), ("q", 1 << 16), ("Q", 1 << 16)]);
        t = a.into();
        m = b;
    } else if invert {
        m ^= LETTERS;
    }
    // Each symbol on its own, between two others so that explicit spaces aren't at the end
    case(format!("class {t:?}"), move || {
        let text = format!("x{t}x !_ !'");
        let ast = QueryAst::new_from_str(&text).map_err(|e| format!("{text:?} does not parse: {e}"))?;
        let ws: Vec<Entry> = (0..28).map(|c| (vec![23, c, 23], 0)).collect();
        let words = make_words(&ws);
        let got: Vec<usize> = collect(QueryEvaluator::new(ast.expressions.iter().map(Expression::from_ast).collect(), &words, 1, None)).into_iter().map(|p| p[0]).collect();
        let exp: Vec<usize> = (0..28).filter(|c| m >> c & 1 == 1).collect();
        if got != exp {
            let s = |v: &[usize]| v.iter().map(|&c| letter(c as u8)).collect::<String>();
            return Err(format!("{t:?} matches {:?}, expected {:?}", s(&got), s(&exp)));
        }
        for c in 0..28 {
            let ch = Char::from_index(c);
            if ch.as_index() != c || ch.into_char() != letter(c as u8) || Char::from(letter(c as u8)) != ch || to_class(m).contains(ch) != (m >> c & 1 == 1) {
                return Err(format!("symbol {:?}", letter(c as u8)));
            }
        }
        Ok((28, m != 0))
    })
}

// ---- C15: lists of words are loaded from files

/// A file which is removed in the end
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(name: &str) -> Scratch {
        let dir = std::env::temp_dir().join(format!("noodle-c15-{}-{name}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Scratch(dir.join(name))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = if self.0.is_dir() { std::fs::remove_dir(&self.0) } else { std::fs::remove_file(&self.0) };
        let _ = std::fs::remove_dir(self.0.parent().unwrap());
    }
}

/// A line, and what it says: the count (if any), the word, and its letters
fn c15_line(r: &mut Rng) -> (Vec<u8>, Option<(Option<u32>, String, String)>) {
    let (mut t, mut exp) = (String::new(), String::new());
    match r.below(12) {
        0 => {
            let (a, b) = r.pick(&[("I", "i"), ("a", "a"), ("i", "i"), ("A", "a"), ("b", "b"), ("", ""), ("æ", "ae"), ("é", "e"), ("-", "'"), ("ab", "ab"), ("\u{301}", ""), ("x y", "x_y")]);
            t.push_str(a);
            exp.push_str(b);
        }
        1 => {
            for _ in 0..1 + r.below(4) {
                let (a, b) = r.pick(PIECES);
                t.push_str(a);
                exp.push_str(b);
            }
        }
        _ => {
            for _ in 0..1 + r.below(5) {
                let (a, b) = r.pick(PIECES);
                if a.bytes().all(|c| !c.is_ascii_digit()) && (r.chance(1, 6) || a.bytes().all(|c| c.is_ascii_lowercase())) {
                    t.push_str(a);
                    exp.push_str(b);
                }
            }
        }
    }
    match r.below(12) {
        0 => {
            // bytes that are no text
            let mut l = t.into_bytes();
            l.extend(*r.pick(&[&[0xffu8][..], &[0xc3], &[0x80, b'a']]));
            (l, None)
        }
        1..=6 => {
            let (c, n) = *r.pick(&[("0", 0), ("17", 17), ("200", 200), ("0005", 5), ("+7", 7), ("4294967295", u32::MAX), ("123456", 123456), ("3000000000", 3000000000)]);
            (format!("{c}\t{t}").into_bytes(), Some((Some(n), t, exp)))
        }
        7 => {
            // no counts: the line as a whole is the word
            let (c, e) = *r.pick(&[("", ""), ("x", "x"), ("-", "'"), ("+", "'"), ("4294967296", "''''''''''"), ("-1", "''"), (" 5", "_'"), ("a b", "a_b"), ("5 ", "'_")]);
            let t = format!("{c}\t{t}");
            (t.clone().into_bytes(), Some((None, t, format!("{e}'{exp}"))))
        }
        _ => (t.clone().into_bytes(), Some((None, t, exp))),
    }
}

fn c15(i: usize, r: &mut Rng) -> Case {
    let big = i % 101 == 7;
    let n = if big { *r.pick(&[9_999, 10_000, 10_001, 10_002, 25_002, 25_003, 26_000, 50_000]) } else { r.below(40) };
    let compressed = r.chance(1, 3);
    // 0: as it is, 1: ends too early, 2: something is overwritten, 3: can't be read at all
    let damage = if compressed && r.chance(1, 3) { 1 + r.below(2) } else if r.chance(1, 40) { 3 } else { 0 };
    let mut lines = vec![];
    for k in 0..n {
        if big && !r.chance(1, 50) {
            let t: String = (0..4).map(|j| (b'a' + (k / [1, 26, 676, 17576][j] % 26) as u8) as char).collect();
            lines.push((t.clone().into_bytes(), Some((None, t.clone(), t))));
        } else {
            lines.push(c15_line(r));
        }
    }
    if i == 11 {
        let t = "a".repeat(21_500_000);
        lines = vec![(t.clone().into_bytes(), Some((None, t.clone(), t)))];
    }
    let n = lines.len();
    // where the lines end (without and with what separates them)
    let (mut bytes, mut ends) = (vec![], vec![]);
    for (k, l) in lines.iter().enumerate() {
        bytes.extend(&l.0);
        let end = bytes.len();
        if k + 1 < n || r.chance(2, 3) || l.0.is_empty() {
            bytes.extend(if r.chance(1, 8) { &b"\r\n"[..] } else { b"\n" });
        }
        ends.push((end, bytes.len()));
    }
    let (mut file, mut readable) = (bytes.clone(), bytes.len());
    if compressed {
        file = zstd::stream::encode_all(&bytes[..], 1).unwrap();
        if damage == 1 {
            file.truncate(r.below(file.len()));
        } else if damage == 2 {
            let k = r.below(file.len());
            file[k] ^= 1 << r.below(8);
        }
        if damage == 1 {
            // what can be read before an error comes up (and without one: nothing is a file of no frames)
            use std::io::Read;
            readable = 0;
            let mut d = std::io::BufReader::new(zstd::stream::read::Decoder::new(std::io::BufReader::new(&file[..])).unwrap());
            let mut buf = vec![0; 1 << 13];
            while let Ok(k) = d.read(&mut buf) {
                if k == 0 {
                    break;
                }
                readable += k;
            }
        }
    }
    let name = format!("{i}.txt{}", if compressed { ".zst" } else { "" });
    let text = format!("file {name}, {} lines, {} bytes{}: {:?}", n, bytes.len(), ["", ", too short", ", damaged", ", a directory"][damage], String::from_utf8_lossy(&bytes[..bytes.len().min(1500)]));
    case(text, move || {
        let scratch = Scratch::new(&name);
        if damage == 3 {
            std::fs::create_dir_all(&scratch.0).unwrap();
        } else {
            std::fs::write(&scratch.0, &file).unwrap();
        }
        let got = noodle::load_wordlist(&scratch.0).map_err(|_| "the list is not loaded".to_string())?;
        let got: Vec<_> = got.iter().map(|w| (w.tranche, w.chars.iter().map(|c| c.as_index() as u8).collect::<Vec<_>>(), w.text.to_string(), w.score)).collect();
        if damage == 2 {
            if !got.windows(2).all(|w| w[0] <= w[1]) {
                return Err("not sorted".into());
            }
            return Ok((1, false));
        }
        let number = |s: &str| s.chars().map(|c| (0..28).find(|&k| letter(k) == c).unwrap()).collect::<Vec<u8>>();
        let mut exp = vec![];
        let (mut class, mut size, mut inside) = (0u8, 10_000, 0);
        for ((l, what), (end, next)) in lines.iter().zip(&ends) {
            // without its end, a line is only read if there is nothing wrong
            if damage == 3 || *next > readable || damage == 1 && end == next {
                break;
            }
            let Some((count, t, letters)) = what else { continue };
            if letters.len() <= 1 && t != "I" && t != "a" || t.bytes().any(|c| c.is_ascii_digit()) {
                continue;
            }
            let plain = t.bytes().all(|c| c.is_ascii_lowercase());
            let mut ls = number(letters);
            ls.push(number("_")[0]);
            exp.push((class + !plain as u8, ls, t.clone(), count.unwrap_or((l.len() * 200).min(u32::MAX as usize) as u32)));
            inside += 1;
            if inside > size {
                (class, size, inside) = (class + 1, size + size / 2, 0);
            }
        }
        exp.sort();
        if got != exp {
            let k = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
            return Err(format!("{} entries instead of {}; entry {k} is {:?}, expected {:?}", got.len(), exp.len(), got.get(k), exp.get(k)));
        }
        Ok((1 + exp.len(), !exp.is_empty()))
    })
}

fn make(prop: &str, i: usize, seed: u64) -> Case {
    let mut r = Rng::new(seed, i as u64);
    let r = &mut r;
    match prop {
        "C01" => c01(i, r),
        "C02" => c02(i, r),
        "C03" => c03(i, r),
        "C04" | "C05" | "C06" if i % 2000 == 11 => chain_case(r),
        "C04" => c04(i, r),
        "C05" => phrases_case(r, true),
        "C06" => phrases_case(r, false),
        "C07" => c07(i, r),
        "C08" => c08(i, r),
        "C09" => c09(i, r),
        "C10" => c10(i, r),
        "C11" => c11(i, r),
        "C12" => c12(i, r),
        "C13" => c13(i, r),
        "C14" => c14(i, r),
        "C15" => c15(i, r),
        _ => panic!("unknown property"),
    }
}

fn panic_text(m: &Box<dyn std::any::Any + Send>) -> String {
    m.downcast_ref::<String>().cloned().or(m.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static NEXT: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicUsize = AtomicUsize::new(0);
static NONTRIVIAL: AtomicUsize = AtomicUsize::new(0);
static COMPARED: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static FAIL: Mutex<Option<(usize, String, String)>> = Mutex::new(None);
static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static CURRENT: Mutex<Vec<Option<(usize, Instant, String)>>> = Mutex::new(Vec::new());

fn report(prop: &str, seed: u64, start: Instant) -> ! {
    let fail = FAIL.lock().unwrap().clone();
    let samples = SAMPLES.lock().unwrap().iter().map(|s| json(s)).collect::<Vec<_>>().join(",");
    let f = match &fail {
        None => "null".to_string(),
        Some((i, case, what)) => format!("{{\"case\":{i},\"input\":{},\"what\":{}}}", json(case), json(what)),
    };
    println!(
        "{{\"property\":\"{prop}\",\"seed\":{seed},\"cases\":{},\"nontrivial\":{},\"comparisons\":{},\"seconds\":{:.1},\"samples\":[{samples}],\"failure\":{f}}}",
        DONE.load(SeqCst), NONTRIVIAL.load(SeqCst), COMPARED.load(SeqCst), start.elapsed().as_secs_f64()
    );
    std::process::exit(fail.is_some() as i32);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let opt = |name: &str, default: u64| args.iter().position(|a| a == name).map_or(default, |i| args[i + 1].parse().unwrap());
    let (seed, count, seconds) = (opt("--seed", 1), opt("--count", 1000) as usize, opt("--seconds", 60));
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].parse::<usize>().unwrap());
    let threads = if only.is_some() { 1 } else { opt("--threads", 8) as usize };
    let hang = opt("--hang", 60);
    let log = args.iter().position(|a| a == "--log").map(|i| Mutex::new(std::fs::File::create(&args[i + 1]).unwrap()));
    let log: &'static _ = Box::leak(Box::new(log));
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    *CURRENT.lock().unwrap() = vec![None; threads];
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let prop = prop.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = NEXT.fetch_add(1, SeqCst);
                    let i = only.unwrap_or(i);
                    if STOP.load(SeqCst) || (only.is_none() && i >= count) || start.elapsed().as_secs() > seconds {
                        return;
                    }
                    if let Some(l) = log {
                        let mut l = l.lock().unwrap();
                        writeln!(l, "case {i} making").unwrap();
                        l.flush().unwrap();
                    }
                    let c = make(&prop, i, seed);
                    if let Some(l) = log {
                        let mut l = l.lock().unwrap();
                        writeln!(l, "case {i} start {}", c.text.replace('\n', "\\n")).unwrap();
                        l.flush().unwrap();
                    }
                    CURRENT.lock().unwrap()[t] = Some((i, Instant::now(), c.text.clone()));
                    let f = c.res;
                    let res = std::panic::catch_unwind(f).unwrap_or_else(|m| Err(format!("panic: {}", panic_text(&m))));
                    CURRENT.lock().unwrap()[t] = None;
                    if let Some(l) = log {
                        let mut l = l.lock().unwrap();
                        writeln!(l, "case {i} end").unwrap();
                        l.flush().unwrap();
                    }
                    DONE.fetch_add(1, SeqCst);
                    match res {
                        Ok((n, nontrivial)) => {
                            COMPARED.fetch_add(n as u64, SeqCst);
                            if nontrivial {
                                NONTRIVIAL.fetch_add(1, SeqCst);
                                let mut s = SAMPLES.lock().unwrap();
                                if s.len() < 5 {
                                    let mut t: String = c.text.chars().take(300).collect();
                                    if t.len() < c.text.len() {
                                        t.push_str("...");
                                    }
                                    s.push(t)
                                }
                            }
                        }
                        Err(e) => {
                            let mut f = FAIL.lock().unwrap();
                            if f.as_ref().map_or(true, |f| i < f.0) {
                                *f = Some((i, c.text, e));
                            }
                            STOP.store(true, SeqCst);
                        }
                    }
                    if only.is_some() {
                        return;
                    }
                })
                .unwrap()
        })
        .collect();
    // Watch for cases that don't end
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if handles.iter().all(|h| h.is_finished()) {
            report(&prop, seed, start);
        }
        for c in CURRENT.lock().unwrap().iter().flatten() {
            if c.1.elapsed().as_secs() > hang {
                let mut f = FAIL.lock().unwrap();
                if f.is_none() {
                    *f = Some((c.0, c.2.clone(), format!("no answer within {hang} seconds")));
                }
                drop(f);
                report(&prop, seed, start);
            }
        }
    }
}
