"""Assembles the verified crate from the real functions and the specifications, and runs Verus."""
import json, os, re, signal, subprocess, sys, time
from extract import *
import rules

REPO = os.environ.get("NOODLE_REPO", "/repo")
SRC = REPO + "/noodle/src/"


class Module:
    """One module of the verified crate. Functions are recorded with where they came from"""

    def __init__(self, name, file=None):
        self.name = name
        self.parts = []          # (text, fn record or None)
        self.log = []            # rewrites
        self.fns = []            # records
        self.lost = []           # what could not be extracted
        self.src = Source(SRC + file) if file else None
        self.file = file
        self.taken = set()

    def text(self, s):
        self.parts.append((s, None))

    def add_fn(self, item, f, qual, extra_rules=(), pre="    "):
        """A real function with its contract"""
        where = f"{self.name}::{qual}"
        rec = {"name": where, "file": self.file, "external": False, "why": None, "weak": None}
        core = item.core
        try:
            text = None
            if f.part:
                core = f.part[1] + " { }"
                core = part_of(item.core, f.part, self.log, where)
            text = splice(core, f, list(extra_rules) + rules.GLOBAL, self.log, where)
        except LostAnchor:
            # try without the hints whose place is not found
            try:
                if f.part:
                    part_of(item.core, f.part, [], where)
                rec["weak"] = []
                text = splice(core, f, list(extra_rules) + rules.GLOBAL, self.log, where, rec["weak"])
            except LostAnchor as e:
                text = None
                lost = e
        if text is None:
            e = lost
            # the function has changed too much for the proof: only its contract is kept
            self.lost.append((where, str(e)))
            rec["external"] = True
            text = splice(empty_body(core), Fn(sig=f.sig, ret=f.ret, attrs=f.attrs), list(f.rules) + list(extra_rules) + rules.GLOBAL, [], where)
        for pat, rep, why in f.post:
            text, n = rewrite(text, pat, rep)
            if n:
                self.log.append((where, pat, rep, n, why))
        if not re.match(r"\s*(#\[[^\]]*\]\s*)*pub\b", text) and f.vis != "":
            text = (f.attrs + "\n" if f.attrs else "") + "pub " + text[len(f.attrs):].lstrip() if f.attrs else "pub " + text
        # what is not `pub` becomes visible, so that contracts can mention it
        text = re.sub(r"\bpub\(crate\)|\bpub\(super\)", "pub", text)
        if rec["external"]:
            text = reduce_to_contract(text)
        self.fns.append(rec)
        self.parts.append((pre + text, rec))
        self.taken.add(id(item))
        return rec

    def fn(self, name, f, header=None, qual=None, rules=()):
        item = self.src.fn(name, header)
        return self.add_fn(item, f, qual or name, rules)

    def impl(self, header, fns, new_header=None, extra="", rules=(), trait=False, assoc="", prefix=""):
        """The functions of an impl block (those listed in `fns`)"""
        blocks = self.src.impls(header)
        if not blocks:
            raise LostAnchor(f"{self.file}: no `{header}`")
        self.parts.append(((new_header or header) + " {\n" + assoc + extra, None))
        q = re.sub(r"^impl\s*(<[^>]*>)?\s*", "", new_header or header)
        for name, f in fns.items():
            if f.vis is None and (trait or " for " in (new_header or header)):
                f.vis = ""
            item = self.src.fn(name, header)
            self.add_fn(item, f, f"{prefix or q}::{name}", rules)
        self.parts.append(("}\n", None))

    def render(self, start_line):
        """Text, and the line range of every function"""
        out, line = [], start_line
        for s, rec in self.parts:
            n = s.count("\n") + 1
            if rec is not None:
                rec["lines"] = (line, line + n - 1)
            out.append(s)
            line += n
        return "\n".join(out), line


def reduce_to_contract(text):
    """The body (the last brace block) is dropped, the contract stays"""
    toks = lex(text)
    i = 0
    while toks[i].s != "fn":
        i += 1
    last = None
    while i < len(toks):
        if toks[i].k == "op" and toks[i].s in "([":
            i = match_close(toks, i)
        elif toks[i].s == "{":
            e = match_close(toks, i)
            last = (i, e)
            i = e
        i += 1
    a = toks[last[0]].a
    lead = re.match(r"\s*", text).group()
    return lead + "#[verifier::external_body] " + text[len(lead):a] + "{ unimplemented!() }" + text[toks[last[1]].b:]


def empty_body(text):
    toks = lex(text)
    return text[:toks[body_open(toks)].a] + "{ }"


HEADER = """// Generated from /repo by /verif/vx; do not edit
#![allow(mismatched_lifetime_syntaxes, unused, non_camel_case_types, non_snake_case, dead_code)]
use vstd::prelude::*;
"""


def assemble(modules, external=()):
    text = HEADER
    for m in modules:
        head = f"\npub mod {m.name} {{\nuse vstd::prelude::*;\nuse super::*;\nverus! {{\n"
        text += head
        body, _ = m.render(text.count("\n") + 1)
        text += body + "\n} // verus!\n}\n"
    text += "\nfn main() {}\n"
    return text


RUNNING = set()
STOPPED = False


def stop(for_good=False):
    """Ends what is still running of the verifier"""
    global STOPPED
    STOPPED = STOPPED or for_good
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def verus(path, args=(), timeout=840):
    if STOPPED:
        raise RuntimeError("stopped")
    t = time.time()
    cmd = ["verus", "--no-trait-conflicts", "--output-json", "--time-expanded", "--num-threads", "8", "--triggers-mode", "silent", "--multiple-errors", "3", path, *args]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = "", "timeout", 124
        stop()
        p.communicate()
    RUNNING.discard(p)
    try:
        js = json.loads(out)
    except Exception:
        js = {}
    return dict(cmd=" ".join(cmd), rc=rc, json=js, stderr=err, seconds=time.time() - t)


def struct(m, name, derive="", public=True, rules=()):
    """A struct with its fields made public and its derives replaced"""
    it = m.src.find("struct", name)
    t = it.core
    for pat, rep, why in rules:
        t, n = rewrite(t, pat, rep)
        if n:
            m.log.append((f"{m.name}::{name}", pat, rep, n, why))
    toks = lex(t)
    edits = []
    i = next(k for k, x in enumerate(toks) if x.s == "struct")
    if toks[0].s != "pub":
        edits.append((toks[i].a, "pub "))
    k = i
    while toks[k].s not in ("{", "(", ";"):
        k += 1
    depth = 0
    if toks[k].s in ("{", "("):
        c = match_close(toks, k)
        j = k + 1
        while j < c:
            # start of a field
            while toks[j].s == "#":
                e = match_close(toks, j + 1)
                j = e + 1
            if public and toks[j].s != "pub":
                edits.append((toks[j].a, "pub "))
            angle = 0
            while j < c and not (toks[j].s == "," and angle == 0):
                if toks[j].s == "<":
                    angle += 1
                elif toks[j].s == ">":
                    angle -= 1
                elif toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            j += 1
    for pos, s in sorted(edits, reverse=True):
        t = t[:pos] + s + t[pos:]
    m.log.append((f"{m.name}::{name}", "struct", "pub fields", 1, "the fields are made public, so that contracts can mention them; derived traits are dropped"))
    m.text(derive + t)
