"""Mechanical extraction of Rust functions, with contracts spliced in.

The text of every function is taken from the source file as it is now. What changes it:
  - rewrite rules: token patterns (`$x` stands for any balanced run of tokens, `$i` with an
    `ident` suffix for one identifier), each applied wherever it matches, and recorded
  - insertions of contracts, loop invariants, and proof blocks, which are ghost code
Variables `$i..` stand for an identifier, `$r..` for a path or method chain, `$z..` for statements, and
others for anything without a semicolon. A rule that doesn't match does nothing; an insertion whose place is gone raises LostAnchor.
"""
import re

TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*(?:[^*]|\*(?!/))*\*/)
  | (?P<rs>b?r\#*"(?:.|\n)*?"\#*)
  | (?P<str>b?"(?:[^"\\]|\\.|\\\n)*")
  | (?P<chr>b?'(?:[^'\\\n]|\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.))')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*|\$[a-z]+)
  | (?P<op>::|->|=>|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|\|=|&=|<<=|\.\.=|\.\.\.|\.\.|.)
""", re.X)
OPEN, CLOSE = "([{", ")]}"


class LostAnchor(Exception):
    pass


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return self.s


def lex(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        k = m.lastgroup
        if k not in ("ws", "lc", "bc"):
            out.append(Tok(k, m.group(), m.start(), m.end()))
        pos = m.end()
    return out


def match_close(toks, i):
    """Index of the bracket that closes toks[i]"""
    depth = 0
    for j in range(i, len(toks)):
        if toks[j].k == "op":
            if toks[j].s in OPEN:
                depth += 1
            elif toks[j].s in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LostAnchor("unbalanced brackets")


class Item:
    def __init__(self, kind, name, header, text, children, start):
        self.kind, self.name, self.header, self.text, self.children, self.start = kind, name, header, text, children, start


def norm(s):
    return " ".join(t.s for t in lex(s))


def parse_items(text, base=0):
    """The items of a file (or of the inside of an impl or trait)"""
    toks = lex(text)
    items, i = [], 0
    while i < len(toks):
        start = i
        attrs = []
        while i < len(toks) and toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append(text[toks[i].a:toks[e].b])
            i = e + 1
        if i >= len(toks):
            break
        j = i
        while toks[j].s in ("pub", "default", "async", "unsafe") or (toks[j].s == "(" and toks[j - 1].s == "pub") or (toks[j].s == "const" and toks[j + 1].s in ("fn", "unsafe")):
            j = match_close(toks, j) + 1 if toks[j].s == "(" else j + 1
        kw = toks[j].s
        # the end of the item: `;` or a brace block at depth 0
        e = j
        body = None
        while True:
            if e >= len(toks):
                raise LostAnchor("item without end")
            s = toks[e].s
            if toks[e].k == "op" and s in "([":
                e = match_close(toks, e)
            elif s == "{":
                c = match_close(toks, e)
                body = (e, c)
                e = c
                if kw in ("const", "static", "type", "use", "let"):
                    pass
                else:
                    break
            elif s == ";":
                break
            e += 1
        if kw == "macro_rules":
            pass
        full = text[toks[start].a:toks[e].b]
        hdr_end = toks[body[0]].a if body else toks[e].a
        header = norm(text[toks[j].a:hdr_end])
        name = None
        if kw in ("fn", "struct", "enum", "trait", "type", "const", "static", "mod"):
            name = toks[j + 1].s
        children = []
        if kw in ("impl", "trait", "mod") and body:
            inner = text[toks[body[0]].b:toks[body[1]].a]
            children = parse_items(inner)
        it = Item(kw, name, header, full, children, toks[start].a)
        it.attrs = attrs
        it.core = text[toks[i].a:toks[e].b]
        items.append(it)
        i = e + 1
    return items


class Source:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.items = parse_items(self.text)

    def all_items(self, items=None):
        for it in self.items if items is None else items:
            yield it
            if it.kind == "mod":
                continue
            yield from self.all_items(it.children)

    def find(self, kind, name):
        for it in self.items:
            if it.kind == kind and it.name == name:
                return it
        raise LostAnchor(f"{self.path}: no {kind} {name}")

    def impls(self, header):
        """impl blocks with this header (several blocks may share one)"""
        h = norm(header)
        return [it for it in self.items if it.kind in ("impl", "trait") and it.header == h]

    def fn(self, name, header=None):
        if header is None:
            c = [it for it in self.items if it.kind == "fn" and it.name == name]
        else:
            c = [f for im in self.impls(header) for f in im.children if f.kind == "fn" and f.name == name]
        if len(c) != 1:
            raise LostAnchor(f"{self.path}: {len(c)} functions {header or ''}::{name}")
        return c[0]

    def nested(self, outer, name):
        """A function inside of the function `outer`"""
        t = outer.core
        toks = lex(t)
        for i, x in enumerate(toks):
            if x.s == "fn" and toks[i + 1].s == name:
                j = i
                while not (toks[j].k == "op" and toks[j].s == "{"):
                    j = match_close(toks, j) + 1 if toks[j].s == "(" else j + 1
                e = match_close(toks, j)
                it = Item("fn", name, norm(t[toks[i].a:toks[j].a]), t[toks[i].a:toks[e].b], [], toks[i].a)
                it.core, it.attrs = it.text, []
                return it
        raise LostAnchor(f"{self.path}: no function {name} inside of {outer.name}")


def without_nested(text):
    """The text of a function without the functions that are defined in its body (those are extracted on their own)"""
    while True:
        toks = lex(text)
        b = body_open(toks)
        for i in range(b, len(toks)):
            if toks[i].k == "id" and toks[i].s == "fn" and toks[i + 1].k == "id":
                j = i
                while not (toks[j].k == "op" and toks[j].s == "{"):
                    j = match_close(toks, j) + 1 if toks[j].s == "(" else j + 1
                a = i
                while toks[a - 1].s == "]":
                    d = a - 1
                    while toks[d].s != "#":
                        d -= 1
                    a = d
                text = text[:toks[a].a] + text[toks[match_close(toks, j)].b:]
                break
        else:
            return text


# ---- rewriting

def match_pattern(pat, toks, i):
    """Match pattern tokens at toks[i]; returns (end, bindings) or None"""
    def go(p, j, env):
        while p < len(pat):
            x = pat[p]
            if x.k == "id" and x.s.startswith("$"):
                name = x.s
                if name.startswith("$i"):
                    if j < len(toks) and toks[j].k == "id":
                        if name in env and [toks[t].s for t in range(*env[name])] != [toks[j].s]:
                            return None
                        env = dict(env)
                        env[name] = (j, j + 1)
                        p, j = p + 1, j + 1
                        continue
                    return None
                if name.startswith("$r") and name not in env:
                    # a path or method chain: $r
                    if j >= len(toks) or toks[j].k != "id" or (j > 0 and toks[j - 1].s in (".", "::")) or toks[j].s in ("unsafe", "let", "mut", "fn", "for", "in", "if", "return"):
                        return None
                    k = j + 1
                    while True:
                        env2 = dict(env)
                        env2[name] = (j, k)
                        r = go(p + 1, k, env2)
                        if r:
                            return r
                        if k >= len(toks):
                            return None
                        if toks[k].s in (".", "::") and k + 1 < len(toks) and toks[k + 1].k in ("id", "num"):
                            k += 2
                        elif toks[k].s in ("(", "["):
                            k = match_close(toks, k) + 1
                        else:
                            return None
                if name in env:
                    a, b = env[name]
                    n = b - a
                    if [t.s for t in toks[a:b]] != [t.s for t in toks[j:j + n]]:
                        return None
                    p, j = p + 1, j + n
                    continue
                k = j
                while True:
                    env2 = dict(env)
                    env2[name] = (j, k)
                    r = go(p + 1, k, env2) if k > j else None
                    if r:
                        return r
                    if k >= len(toks):
                        return None
                    if toks[k].k == "op" and toks[k].s in OPEN:
                        k = match_close(toks, k) + 1
                    elif toks[k].k == "op" and (toks[k].s in CLOSE or (toks[k].s == ";" and not name.startswith("$z"))):
                        return None
                    else:
                        k += 1
            if j >= len(toks) or toks[j].s != x.s:
                return None
            p, j = p + 1, j + 1
        return j, env

    return go(0, i, {})


def rewrite(text, pattern, replacement, limit=None):
    """All matches of `pattern`, outermost first, repeatedly; returns (text, count)"""
    pat = lex(pattern)
    count = 0
    pos = 0
    while True:
        toks = lex(text)
        found = None
        for i in range(len(toks)):
            if toks[i].a < pos:
                continue
            r = match_pattern(pat, toks, i)
            if r:
                found = (i, r)
                break
        if not found:
            return text, count
        i, (e, env) = found
        rep = replacement
        for name, (a, b) in sorted(env.items(), key=lambda x: -len(x[0])):
            rep = rep.replace(name, text[toks[a].a:toks[b - 1].b])
        a = toks[i].a
        text = text[:a] + rep + text[toks[e - 1].b:]
        count += 1
        # go on inside of the replacement if it can't match itself again
        pos = a + 1 if match_pattern(pat, lex(rep), 0) is None else a + len(rep)
        if limit and count >= limit:
            return text, count


def find_anchor(text, pattern, nth=0):
    pat, toks = lex(pattern), lex(text)
    hits = []
    for i in range(len(toks)):
        r = match_pattern(pat, toks, i)
        if r:
            hits.append((toks[i].a, toks[r[0] - 1].b))
    if len(hits) <= nth:
        raise LostAnchor(f"no `{pattern}` (number {nth})")
    return hits[nth]


def body_open(toks):
    """Index of the `{` which opens the body of the function that starts at toks[0]"""
    i = 0
    while toks[i].s != "fn":
        i += 1
    while True:
        if toks[i].k == "op" and toks[i].s in "([":
            i = match_close(toks, i) + 1
        elif toks[i].s in ("{", ";"):
            return i
        else:
            i += 1


def loops(toks, start):
    """(keyword index, `{` index, `}` index) of the loops in a function body, in order"""
    out = []
    for i in range(start, len(toks)):
        if toks[i].k == "id" and toks[i].s in ("for", "while", "loop"):
            if toks[i].s == "for" and toks[i + 1].s == "<":
                continue
            if toks[i - 1].s == "." or (toks[i].s == "for" and toks[i - 1].s == ">"):
                continue
            j = i + 1
            while not (toks[j].k == "op" and toks[j].s == "{"):
                j = match_close(toks, j) + 1 if toks[j].k == "op" and toks[j].s in "([" else j + 1
            out.append((i, j, match_close(toks, j)))
    return out


FOR = "a `for` loop is written out as a `while` loop (over the indices)"


def desugar_for(text, log, where):
    """`for` loops over slices, and those over ranges which contain a `continue`"""
    pos = 0
    while True:
        toks = lex(text)
        hit = None
        for i, x in enumerate(toks):
            if x.a < pos or x.k != "id" or x.s != "for" or toks[i + 1].s == "<":
                continue
            j = i + 1
            while toks[j].s != "in":
                if toks[j].s in (";", "{", "}"):
                    break
                j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") else j + 1
            if toks[j].s != "in":
                continue
            o = j + 1
            while toks[o].s != "{":
                o = match_close(toks, o) + 1 if toks[o].s in ("(", "[") else o + 1
            hit = (i, j, o, match_close(toks, o))
            break
        if hit is None:
            return text
        i, j, o, c = hit
        pos = toks[i].b
        pat = text[toks[i + 1].a:toks[j - 1].b]
        ex = [t.s for t in toks[j + 1:o]]
        has_continue = any(t.s == "continue" for t in toks[o:c])

        def cut(n):
            return text[toks[j + 1].a:toks[o - 1 - n].b]
        new = None
        pt = [t.s for t in lex(pat)]
        if ex[-8:] == [".", "iter", "(", ")", ".", "enumerate", "(", ")"] and pt[0] == "(" and pt[2] == ",":
            r, var = cut(8), pt[1]
            rest = " ".join(pt[3:-1])
            get = f"let {rest[2:]} = {r}[{var}];" if rest.startswith("& ") else f"let {rest} = &{r}[{var}];"
            new = f"let mut k_{var}: usize = 0; while k_{var} < {r}.len() {{ let {var} = k_{var}; k_{var} += 1; {get}"
        elif ex[-4:] == [".", "iter", "(", ")"] or (ex[0] == "&" and len(ex) == 2):
            r = cut(4) if ex[-1] == ")" else ex[1]
            if pt[0] == "&":
                var, amp = pt[1], ""
            else:
                var, amp = pt[0], "&"
            if len(pt) <= 2:
                new = f"let mut k_{var}: usize = 0; while k_{var} < {r}.len() {{ let {var} = {amp}{r}[k_{var}]; k_{var} += 1;"
        elif len(ex) == 1 and toks[j + 1].k == "id" and len(pt) == 1:
            # a vector of this function is consumed, others are only borrowed
            r, var = ex[0], pt[0]
            amp = "" if any(toks[k].s == "let" and toks[k + 1].s == "mut" and toks[k + 2].s == r for k in range(len(toks) - 2)) else "&"
            new = f"let mut k_{var}: usize = 0; while k_{var} < {r}.len() {{ let {var} = {amp}{r}[k_{var}]; k_{var} += 1;"
        else:
            d = next((k for k in range(j + 1, o) if toks[k].s in ("..", "..=")), None)
            if d is not None and len(pt) == 1:
                lo = text[toks[j + 1].a:toks[d - 1].b]
                hi = text[toks[d + 1].a:toks[o - 1].b]
                var = pt[0]
                if toks[d].s == "..=":
                    hi = f"({hi}) + 1"
                if has_continue:
                    new = f"let mut k_{var}: usize = {lo}; let end_{var}: usize = {hi}; while k_{var} < end_{var} {{ let {var} = k_{var}; k_{var} += 1;"
                elif toks[d].s == "..=":
                    new = f"for {var} in {lo}..{hi} {{"
        if new:
            # a label stays in front
            log.append((where, text[toks[i].a:toks[o].b], new, 1, FOR))
            a = toks[i].a
            if toks[i - 1].s == ":" and toks[i - 2].k == "life":
                lab = toks[i - 2].s
                a = toks[i - 2].a
                new = new.replace("while ", f"{lab}: while ", 1) if "while " in new else f"{lab}: {new}"
            text = text[:a] + new + text[toks[o].b:]
            pos = a + len(new)


class Loop:
    def __init__(self, inv="", it=None, start="", end="", before="", after=""):
        self.inv, self.it, self.start, self.end, self.before, self.after = inv, it, start, end, before, after


class Fn:
    """What is added to a function"""

    def __init__(self, sig="", ret="r", loops=(), start="", rules=(), at=(), attrs="", vis=None, header=None, post=(), part=None):
        self.part = part  # (pattern, head, body): a part of the function that becomes one of its own
        self.sig, self.ret, self.loops, self.start, self.rules, self.at, self.attrs, self.header = sig, ret, loops, start, rules, at, attrs, header
        self.post, self.vis = post, vis


def part_of(core, part, log, where):
    """A part of a function, as a function: `part` is the pattern of the part, the head of the new function,
    and its body (in which $z… stand for what the pattern has found)"""
    pattern, head, body = part
    pat, toks = lex(pattern), lex(core)
    for i in range(len(toks)):
        r = match_pattern(pat, toks, i)
        if r:
            for name, (a, b) in sorted(r[1].items(), key=lambda x: -len(x[0])):
                body = body.replace(name, core[toks[a].a:toks[b - 1].b])
            log.append((where, pattern, head, 1, "a part of a function becomes one of its own"))
            return f"{head} {{\n{body}\n}}"
    raise LostAnchor(f"{where}: no `{pattern}`")


def splice(core, f, rules, log, where, weak=None):
    """Text of the function with its contract. With a list `weak`, hints whose place can't be found are
    left out (and recorded there)"""
    text = core
    for pat, rep, why in list(f.rules) + list(rules):
        text, n = rewrite(text, pat, rep)
        if n:
            log.append((where, pat, rep, n, why))
    text = desugar_for(text, log, where)
    toks = lex(text)
    b = body_open(toks)
    edits = []

    def ins(pos, s, order=0):
        edits.append((pos, order, s))

    # name the result
    depth = 0
    arrow = None
    i = 0
    while i < b:
        if toks[i].k == "op" and toks[i].s in "([":
            i = match_close(toks, i)
        elif toks[i].s == "->":
            arrow = i
        elif toks[i].s == "where":
            break
        i += 1
    where_at = i if i < b and toks[i].s == "where" else b
    if arrow is not None and f.ret:
        ins(toks[arrow].b, f" ({f.ret}:")
        ins(toks[where_at - 1].b, ")", 1)
    if f.sig:
        ins(toks[b].a, "\n" + f.sig + "\n")
    if toks[b].s == ";":
        assert not f.loops and not f.start
    elif f.start:
        ins(toks[b].b, "\n" + f.start)
    ls = loops(toks, b)
    if len(ls) != len(f.loops):
        raise LostAnchor(f"{where}: {len(ls)} loops instead of {len(f.loops)}")
    for (k, o, c), l in zip(ls, f.loops):
        if l.it:
            j = k + 1
            while toks[j].s != "in":
                j = match_close(toks, j) + 1 if toks[j].k == "op" and toks[j].s in "([" else j + 1
            ins(toks[j].b, f" {l.it}:")
        if l.inv:
            ins(toks[o].a, "\n" + l.inv + "\n")
        if l.start:
            ins(toks[o].b, "\n" + l.start + "\n")
        if l.end:
            ins(toks[c].a, "\n" + l.end + "\n")
        kk = k
        if toks[k - 1].s == ":" and toks[k - 2].k == "life":
            kk = k - 2
        if l.before:
            ins(toks[kk].a, l.before + "\n")
        if l.after:
            ins(toks[c].b, "\n" + l.after + "\n")
    for a in f.at:
        pat, side, s = a[:3]
        nth = a[3] if len(a) > 3 else 0
        try:
            x, y = find_anchor(text, pat, nth)
        except LostAnchor as e:
            if weak is None:
                raise
            weak.append(str(e))
            continue
        ins(x if side == "before" else y, ("" if side == "before" else "\n") + s + "\n", 2)
    for pos, order, s in sorted(edits, key=lambda e: (e[0], e[1]), reverse=True):
        text = text[:pos] + s + text[pos:]
    return f.attrs + ("\n" if f.attrs else "") + text
