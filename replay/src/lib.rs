//! Independent executable oracle: what noodle must answer, written from its documentation
//! (noodle_help.md). It shares no code with noodle: patterns are `Pat`, letters are `u8`
//! (0..=25: a-z, 26: punctuation, 27: space), and classes are `u32` masks.
pub mod run;

pub const LETTERS: u32 = (1 << 26) - 1;
pub const PUNCT: u32 = 1 << 26;
pub const SPACE: u32 = 1 << 27;
pub const ALL: u32 = (1 << 28) - 1;
const INF: u32 = u32::MAX;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Rng {
        let mut r = Rng((seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03)) | 1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Standard,
    Super,
    Sub,
    TransAdd(usize),
    TransDelete(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pat {
    Cls(u32),
    Alt(Vec<Pat>),
    Seq(Vec<Pat>),
    /// A (possibly empty) run of consecutive elements
    Run(Vec<Pat>),
    Rep(Box<Pat>, usize, Option<usize>),
    Ana(Kind, Vec<u8>),
    /// The elements in order, each may be missing
    Subset(Vec<Pat>),
    /// The elements in order, with anything in between
    Superset(Vec<Pat>),
    /// Enumeration: n letters, then a space
    Num(usize),
}
use Pat::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Expr {
    pub pat: Pat,
    /// `!_`, `!'`, `!n`
    pub spaces: bool,
    pub punct: bool,
    pub fuzz: Option<usize>,
}

impl Expr {
    pub fn plain(pat: Pat) -> Expr {
        Expr { pat, spaces: false, punct: false, fuzz: None }
    }
    pub fn explicit_spaces(&self) -> bool {
        self.spaces || self.pat.mentions(SPACE)
    }
    pub fn explicit_punct(&self) -> bool {
        self.punct || self.pat.mentions(PUNCT)
    }
    /// Does the expression match the phrase (the concatenation of its words, each with a trailing space)?
    pub fn matches(&self, s: &[u8]) -> bool {
        let (sp, pu) = (self.explicit_spaces(), self.explicit_punct());
        let v: Vec<u8> = s.iter().copied().filter(|&c| (sp || c != 27) && (pu || c != 26)).collect();
        let limit = self.fuzz.unwrap_or(0) as u32;
        let n = v.len();
        let mut cur = vec![INF; n + 1];
        cur[0] = 0;
        let m = Matcher { s: &v, limit };
        cur = m.step(&self.pat, &cur);
        // Trailing spaces are absorbed
        cur = m.step(&Rep(Box::new(Cls(SPACE)), 0, None), &cur);
        m.extra(&mut cur);
        cur[n] <= limit
    }
    pub fn text(&self) -> String {
        let mut s = self.pat.text();
        if self.spaces {
            s.push_str(" !_");
        }
        if self.punct {
            s.push_str(" !'");
        }
        if let Some(f) = self.fuzz {
            s.push_str(&format!(" !{f}"));
        }
        s
    }
}

struct Matcher<'a> {
    s: &'a [u8],
    limit: u32,
}

fn merge(a: &mut [u32], b: &[u32]) -> bool {
    let mut changed = false;
    for (x, y) in a.iter_mut().zip(b) {
        if *y < *x {
            *x = *y;
            changed = true;
        }
    }
    changed
}

impl Matcher<'_> {
    fn cap(&self, c: u32, d: u32) -> u32 {
        if c == INF || c + d > self.limit {
            INF
        } else {
            c + d
        }
    }
    /// Characters of the phrase which aren't in the pattern, at a cost of 1 each
    fn extra(&self, cur: &mut [u32]) {
        for i in 0..self.s.len() {
            let c = self.cap(cur[i], 1);
            cur[i + 1] = cur[i + 1].min(c);
        }
    }
    /// `cur[i]`: least number of edits with which the pattern so far matches `s[..i]`
    fn step(&self, p: &Pat, cur: &[u32]) -> Vec<u32> {
        let n = self.s.len();
        let mut out = vec![INF; n + 1];
        match p {
            Cls(m) => {
                let mut cur = cur.to_vec();
                self.extra(&mut cur);
                for i in 0..=n {
                    if m & LETTERS != 0 {
                        // a letter is missing, or replaced
                        out[i] = out[i].min(self.cap(cur[i], 1));
                        if i < n {
                            out[i + 1] = out[i + 1].min(self.cap(cur[i], 1));
                        }
                    }
                    if i < n && m >> self.s[i] & 1 == 1 {
                        out[i + 1] = out[i + 1].min(cur[i]);
                    }
                }
            }
            Alt(ps) => {
                for p in ps {
                    merge(&mut out, &self.step(p, cur));
                }
            }
            Seq(ps) => {
                out = cur.to_vec();
                for p in ps {
                    out = self.step(p, &out);
                }
            }
            Run(ps) => {
                out = cur.to_vec();
                for a in 0..ps.len() {
                    let mut c = cur.to_vec();
                    for p in &ps[a..] {
                        c = self.step(p, &c);
                        merge(&mut out, &c);
                    }
                }
            }
            Rep(p, min, max) => {
                if max.map_or(false, |m| m < *min) {
                    return out;
                }
                let mut c = cur.to_vec();
                for _ in 0..*min {
                    c = self.step(p, &c);
                }
                merge(&mut out, &c);
                match max {
                    Some(m) => {
                        for _ in *min..*m {
                            c = self.step(p, &c);
                            merge(&mut out, &c);
                        }
                    }
                    None => loop {
                        c = self.step(p, &c);
                        if !merge(&mut out, &c) {
                            break;
                        }
                    },
                }
            }
            Ana(kind, bank) => {
                for i in 0..=n {
                    if cur[i] != INF {
                        for j in i..=n {
                            if anagram(*kind, bank, &self.s[i..j]) {
                                out[j] = out[j].min(cur[i]);
                            }
                        }
                    }
                }
            }
            Subset(ps) => {
                out = cur.to_vec();
                for p in ps {
                    let o = self.step(p, &out);
                    merge(&mut out, &o);
                }
            }
            Superset(ps) => {
                let any = Rep(Box::new(Cls(ALL)), 0, None);
                out = self.step(&any, cur);
                for p in ps {
                    out = self.step(p, &out);
                    out = self.step(&any, &out);
                }
            }
            Num(k) => {
                out = self.step(&Rep(Box::new(Cls(LETTERS)), *k, Some(*k)), cur);
                out = self.step(&Cls(SPACE), &out);
            }
        }
        out
    }
}

fn counts(s: &[u8]) -> [usize; 28] {
    let mut c = [0; 28];
    s.iter().for_each(|&x| c[x as usize] += 1);
    c
}

pub fn anagram(kind: Kind, bank: &[u8], s: &[u8]) -> bool {
    let (b, w) = (counts(bank), counts(s));
    if s.iter().any(|&c| c > 25) {
        return false;
    }
    let all = |f: &dyn Fn(usize, usize) -> bool| (0..28).all(|i| f(b[i], w[i]));
    match kind {
        Kind::Standard => all(&|b, w| b == w),
        Kind::Super => all(&|b, w| b <= w),
        Kind::Sub => all(&|b, w| b >= w),
        Kind::TransAdd(n) => all(&|b, w| b <= w) && s.len() == bank.len() + n,
        Kind::TransDelete(n) => all(&|b, w| b >= w) && s.len() == bank.len().saturating_sub(n),
    }
}

pub fn letter(c: u8) -> char {
    match c {
        26 => '\'',
        27 => '_',
        _ => (b'a' + c) as char,
    }
}

pub fn cls_text(m: u32) -> String {
    if m == LETTERS {
        return ".".into();
    }
    if m.count_ones() == 1 {
        return letter(m.trailing_zeros() as u8).to_string();
    }
    if m == 0 {
        return "[^a-z]".into();
    }
    let mut s = String::from("[");
    for i in 0..28 {
        if m >> i & 1 == 1 {
            s.push(letter(i));
        }
    }
    s.push(']');
    s
}

impl Pat {
    pub fn mentions(&self, mask: u32) -> bool {
        match self {
            Cls(m) => m & mask != 0,
            Alt(ps) | Seq(ps) | Run(ps) | Subset(ps) => ps.iter().any(|p| p.mentions(mask)),
            Superset(_) => true,
            Rep(p, _, _) => p.mentions(mask),
            Ana(_, b) => b.iter().any(|&c| mask >> c & 1 == 1),
            Num(_) => mask & SPACE != 0,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Alt(ps) | Seq(ps) | Run(ps) | Subset(ps) | Superset(ps) => 1 + ps.iter().map(|p| p.size()).sum::<usize>(),
            Rep(p, _, _) => 1 + p.size(),
            _ => 1,
        }
    }
    /// Everything but sequences, alternatives with one element and repetitions is already a single term
    fn term(&self) -> String {
        match self {
            Cls(_) | Run(_) | Ana(..) | Subset(_) | Superset(_) => self.text(),
            Alt(ps) if ps.len() > 1 => self.text(),
            _ => format!("({})", self.text()),
        }
    }
    pub fn text(&self) -> String {
        let terms = |ps: &[Pat]| ps.iter().map(|p| p.term()).collect::<String>();
        match self {
            Cls(m) => cls_text(*m),
            Alt(ps) => format!("({})", ps.iter().map(|p| p.text()).collect::<Vec<_>>().join("|")),
            Seq(ps) => {
                let mut s = String::new();
                for p in ps {
                    match p {
                        Rep(..) => s.push_str(&p.text()),
                        _ => s.push_str(&p.term()),
                    }
                }
                s
            }
            Run(ps) => format!("({}:^)", terms(ps)),
            Subset(ps) => format!("({}:-)", terms(ps)),
            Superset(ps) => format!("({}:+)", terms(ps)),
            Rep(p, min, max) => {
                let t = p.term();
                match (min, max) {
                    (0, Some(1)) => format!("{t}?"),
                    (0, None) => format!("{t}*"),
                    (1, None) => format!("{t}+"),
                    (0, Some(m)) => format!("{t}{{,{m}}}"),
                    (m, None) => format!("{t}{{{m},}}"),
                    (a, Some(b)) if a == b => format!("{t}{{{a}}}"),
                    (a, Some(b)) => format!("{t}{{{a},{b}}}"),
                }
            }
            Ana(kind, bank) => {
                let b: String = bank.iter().map(|&c| letter(c)).collect();
                match kind {
                    Kind::Standard => format!("<{b}>"),
                    Kind::Super => format!("<{b}+>"),
                    Kind::Sub => format!("<{b}->"),
                    Kind::TransAdd(n) => format!("<{b}+{n}>"),
                    Kind::TransDelete(n) => format!("<{b}-{n}>"),
                }
            }
            Num(n) => format!(" {n} "),
        }
    }
    /// Can this be written as text (the grammar has no empty groups)?
    pub fn has_text(&self) -> bool {
        match self {
            Alt(ps) => ps.len() > 1 && ps.iter().all(|p| p.has_text()),
            Seq(ps) | Run(ps) | Subset(ps) | Superset(ps) => !ps.is_empty() && ps.iter().all(|p| p.has_text()),
            Rep(p, _, _) => p.has_text(),
            _ => true,
        }
    }
    pub fn nesting(&self) -> usize {
        match self {
            Cls(_) | Ana(..) | Num(_) => 0,
            Alt(ps) | Seq(ps) | Run(ps) | Subset(ps) | Superset(ps) => 1 + ps.iter().map(|p| p.nesting()).max().unwrap_or(0),
            Rep(p, _, _) => 1 + p.nesting(),
        }
    }

    /// A random string that matches the pattern (best effort)
    pub fn sample(&self, r: &mut Rng, out: &mut Vec<u8>) {
        match self {
            Cls(m) => {
                if *m != 0 {
                    let k = r.below(m.count_ones() as usize);
                    let i = (0..28).filter(|i| m >> i & 1 == 1).nth(k).unwrap();
                    // prefer letters which occur elsewhere
                    out.push(if *m == LETTERS && r.chance(3, 4) { r.below(3) as u8 } else { i });
                }
            }
            Alt(ps) => {
                if !ps.is_empty() {
                    r.pick(ps).sample(r, out)
                }
            }
            Seq(ps) => ps.iter().for_each(|p| p.sample(r, out)),
            Run(ps) => {
                let a = r.below(ps.len() + 1);
                let b = a + r.below(ps.len() - a + 1);
                ps[a..b].iter().for_each(|p| p.sample(r, out))
            }
            Subset(ps) => ps.iter().for_each(|p| {
                if r.chance(1, 2) {
                    p.sample(r, out)
                }
            }),
            Superset(ps) => ps.iter().for_each(|p| {
                if r.chance(1, 3) {
                    out.push(r.below(28) as u8)
                }
                p.sample(r, out)
            }),
            Rep(p, min, max) => {
                let hi = max.unwrap_or(min + 3).max(*min);
                let k = match r.below(4) {
                    0 => *min,
                    1 => hi,
                    _ => min + r.below(hi - min + 1),
                };
                (0..k).for_each(|_| p.sample(r, out))
            }
            Ana(kind, bank) => {
                let mut b = bank.clone();
                r.shuffle(&mut b);
                match kind {
                    Kind::Standard => {}
                    Kind::Super => {
                        for _ in 0..r.below(3) {
                            let i = r.below(b.len() + 1);
                            b.insert(i, r.below(26) as u8)
                        }
                    }
                    Kind::Sub => b.truncate(r.below(b.len() + 1)),
                    Kind::TransAdd(n) => {
                        for _ in 0..*n {
                            let i = r.below(b.len() + 1);
                            b.insert(i, r.below(4) as u8)
                        }
                    }
                    Kind::TransDelete(n) => b.truncate(b.len().saturating_sub(*n)),
                }
                out.extend(b)
            }
            Num(k) => {
                (0..*k).for_each(|_| out.push(r.below(4) as u8));
                out.push(27);
            }
        }
    }
}

/// Random edit of a string
pub fn mutate(s: &mut Vec<u8>, r: &mut Rng) {
    let c = if r.chance(1, 4) { r.below(26) } else { r.below(4) } as u8;
    match r.below(5) {
        0 => s.insert(r.below(s.len() + 1), c),
        1 | 2 if !s.is_empty() => {
            let i = r.below(s.len());
            s.remove(i);
        }
        3 if !s.is_empty() => {
            let i = r.below(s.len());
            s[i] = c;
        }
        4 if s.len() > 1 => {
            let i = r.below(s.len() - 1);
            s.swap(i, i + 1);
        }
        _ => s.push(c),
    }
}

#[derive(Clone, Copy)]
pub struct Gen {
    pub depth: usize,
    /// also use classes with spaces and punctuation
    pub symbols: bool,
    /// only patterns that can be written as text
    pub text: bool,
    pub width: usize,
    pub reps: usize,
}

pub fn gen_class(r: &mut Rng, g: &Gen) -> u32 {
    if g.symbols && r.chance(1, 4) {
        return match r.below(5) {
            0 => SPACE,
            1 => PUNCT,
            2 => SPACE | 1,
            3 => PUNCT | 2,
            _ => ALL,
        };
    }
    match r.below(16) {
        0..=4 => 1,
        5..=7 => 2,
        8 | 9 => 4,
        10 => 3,
        11 => 5,
        12 => LETTERS & !1,
        13 => {
            if r.chance(1, 4) {
                0
            } else {
                1 << r.below(26)
            }
        }
        _ => LETTERS,
    }
}

pub fn gen_pat(r: &mut Rng, g: &Gen, depth: usize) -> Pat {
    if depth == 0 {
        return Cls(gen_class(r, g));
    }
    let lo = if g.text { 1 } else { 0 };
    let many = |r: &mut Rng, lo: usize| -> Vec<Pat> { (0..lo + r.below(g.width)).map(|_| gen_pat(r, g, depth - 1)).collect() };
    match r.below(9) {
        0 | 1 => Cls(gen_class(r, g)),
        2 | 3 => Seq(many(r, 1)),
        4 => Seq(many(r, lo)),
        5 => Alt(many(r, if g.text { 2 } else { lo })),
        6 => Run(many(r, lo)),
        _ => {
            let min = r.below(g.reps);
            let max = match r.below(6) {
                0 | 1 => None,
                2 => Some(min),
                3 => Some(r.below(g.reps)),
                _ => Some(min + r.below(g.reps)),
            };
            Rep(Box::new(gen_pat(r, g, depth - 1)), min, max)
        }
    }
}

/// A pattern with many states (they need several blocks of the state sets)
pub fn gen_long(r: &mut Rng, g: &Gen) -> Pat {
    let mut ps = vec![];
    let target = 25 + r.below(60);
    let mut n = 0;
    while n < target {
        match r.below(6) {
            0 => {
                let k = 5 + r.below(35);
                ps.push(Rep(Box::new(Cls(gen_class(r, g))), r.below(3), Some(k)));
                n += k;
            }
            1 => {
                let k = 2 + r.below(6);
                ps.push(Rep(Box::new(gen_pat(r, g, 1)), k, Some(k + r.below(3))));
                n += 2 * k;
            }
            2 => {
                let k = 2 + r.below(8);
                ps.push(Run((0..k).map(|_| Cls(gen_class(r, g))).collect()));
                n += 2 * k;
            }
            3 => {
                let p = gen_pat(r, g, 2);
                n += p.size();
                ps.push(p);
            }
            _ => {
                ps.push(Cls(gen_class(r, g)));
                n += 1;
            }
        }
    }
    Seq(ps)
}

/// The same query text, with spaces and comments at random places where they don't matter
pub fn spaced(text: &str, r: &mut Rng) -> String {
    let cs: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        let rest: String = cs[i..].iter().take(3).collect();
        let n = if [":-)", ":+)", ":^)"].contains(&rest.as_str()) {
            3
        } else if ["!_", "!'", "{,", ",}", "->", "+>"].iter().any(|t| rest.starts_with(t)) {
            2
        } else {
            cs[i..].iter().take_while(|c| c.is_ascii_digit()).count().max(1)
        };
        out.extend(&cs[i..i + n]);
        i += n;
        match r.below(12) {
            0 => out.push(' '),
            1 => out.push_str("/**/"),
            2 => out.push_str(" /* b */ "),
            _ => (),
        }
    }
    out
}

pub fn word_text(s: &[u8]) -> String {
    s.iter().map(|&c| if c == 27 { ' ' } else { letter(c) }).collect()
}

/// All strings over `alphabet` up to the given length
pub fn all_strings(alphabet: &[u8], len: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut level = out.clone();
    for _ in 0..len {
        level = level
            .iter()
            .flat_map(|w| {
                alphabet.iter().map(move |&c| {
                    let mut v = w.clone();
                    v.push(c);
                    v
                })
            })
            .collect();
        out.extend(level.iter().cloned());
    }
    out
}
