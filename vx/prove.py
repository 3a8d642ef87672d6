"""Proves the contracts that a property depends on, on the source as it is now.

The modules in specs/ extract the real functions and add their contracts; Verus checks every
obligation. A function which can't be extracted or isn't within the verifier's reach any more is
reduced to its contract (`external_body`), the rest is still proved, and the property is reported as
undecided by the proof (the bounded part then decides on its own).
"""
import importlib, json, os, re, shutil, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/vx", V + "/specs"]
import build, extract
from build import assemble, reduce_to_contract, verus

PROOFS = json.load(open(V + "/tools/proofs.json"))


def errors(stderr):
    """(message, first line, all lines mentioned) of every error"""
    out = []
    for block in re.split(r"\n(?=error|warning|note)", "\n" + stderr):
        m = re.match(r"\n?error(\[\w+\])?: (.*)", block)
        if not m or m.group(2).startswith("aborting due"):
            continue
        locs = [int(x) for x in re.findall(r"gen\.rs:(\d+):\d+", block)]
        marks = [int(x) for x in re.findall(r"^\s*(\d+)\s*[|/]", block, re.M)]
        out.append((m.group(1), m.group(2), locs[:1] + marks + locs[1:], block))
    return out


def unsafe(message, line):
    """A failed obligation that stands for a panic, an overflow, or an access outside, at a line of the code itself"""
    return not line.startswith(("proof", "assert", "ensures", "invariant", "lemma_")) and any(m in message for m in ("precondition not satisfied", "overflow", "division by zero", "shift", "unreachable", "decreases not satisfied", "could not prove termination"))


def prove(prop, tier="quick", keep=None, until=None):
    """`until`: when the answer has to be there"""
    conf = PROOFS[prop]
    work = keep or tempfile.mkdtemp(prefix="noodle-prove-")
    os.makedirs(work, exist_ok=True)
    try:
        return prove_(conf, tier, work, until or time.time() + 840)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def vir_error(results):
    return bool(results is None or results.get("encountered-vir-error") or (results.get("encountered-error") and not results.get("errors")))


def prove_(conf, tier, work, until):
    why, failures, out = [], [], ""
    mods = []
    for name in conf["modules"]:
        try:
            m = importlib.import_module(name).module()
        except (extract.LostAnchor, OSError) as e:
            return dict(status="undecided", why=[f"module {name}: {e}"])
        mods.append(m)
        if name not in conf.get("assumed", []):
            why += [f"{w}: {e}" for w, e in m.lost]
    path = work + "/gen.rs"
    seconds = 0
    assumed = conf.get("assumed", [])
    # the modules with functions this property depends on; of the others (verified by other checks) only the contracts are used
    only = [x for name in conf["modules"] if name not in assumed for x in ("--verify-module", name)] if assumed else []
    for attempt in range(12):
        text = assemble(mods)
        open(path, "w").write(text)
        r = verus(path, only + ["--rlimit", "60" if tier == "thorough" else "30"], max(5, until - time.time()))
        seconds += r["seconds"]
        if r["rc"] == 124:
            return dict(status="undecided", why=why + ["the verifier gives no answer in time"])
        errs = errors(r["stderr"])
        results = r["json"].get("verification-results")
        recs = [(rec["lines"], rec) for m in mods for rec in m.fns]

        def owner(lines):
            for l in lines:
                for (a, b), rec in recs:
                    if a <= l <= b:
                        return rec
            return None
        if errs and not vir_error(results):
            # an obligation counts as failed only if it fails for other seeds of the solver, too
            for k in (1, 2):
                if until - time.time() < 20:
                    break
                # (only the modules with failed obligations)
                again = {(owner(e[2]) or {"name": "?"})["name"].split("::")[0] for e in errs}
                where = [x for name in again for x in ("--verify-module", name)] if "?" not in again else only
                r2 = verus(path, where + ["--rlimit", "90", "--smt-option", f"smt.random_seed={k}"], until - time.time())
                seconds += r2["seconds"]
                e2 = errors(r2["stderr"])
                n2 = r2["json"].get("verification-results")
                if len(e2) < len(errs) and not vir_error(n2):
                    n2["verified"] = results["verified"] + results["errors"] - n2["errors"]
                    r, errs, results = r2, e2, n2
                if not errs:
                    break
        if not vir_error(results):
            break
        # something can't be translated: reduce the functions concerned to their contracts
        hit = set()
        for code, msg, lines, block in errs:
            rec = owner(lines)
            if rec is not None and not rec["external"]:
                hit.add(id(rec))
                if rec["name"].split("::")[0] not in assumed:
                    why.append(f"{rec['name']}: not within the verifier's reach: {msg}")
        if not hit:
            return dict(status="undecided", why=why + [e[1] for e in errs[:5]] or ["the verifier gives no answer"], stderr=r["stderr"][-5000:])
        for m in mods:
            for k, (s, rec) in enumerate(m.parts):
                if rec is not None and id(rec) in hit:
                    rec["external"] = True
                    m.parts[k] = (reduce_to_contract(s), rec)
    else:
        return dict(status="undecided", why=why + ["too many functions out of the verifier's reach"])
    for code, msg, lines, block in errs:
        rec = owner(lines)
        name = rec["name"] if rec else "a lemma"
        line = text.splitlines()[lines[0] - 1].strip() if lines else ""
        low = msg.lower()
        if any(u in low for u in ("resource limit", "rlimit")):
            why.append(f"{name}: {msg}")
        elif rec and rec["weak"]:
            why.append(f"{name}: {msg} (parts of the proof have lost their place: {'; '.join(rec['weak'])})")
        elif any(name.startswith(p) for p in conf.get("elsewhere", [])):
            why.append(f"{name}: {msg} (what this function does otherwise is decided by the checks of other properties)")
        elif any(name.startswith(p + "::") for p in conf.get("safety_only", [])) and not unsafe(low, line):
            why.append(f"{name}: {msg} (no obligation of safety; what this function does otherwise is decided by the checks of other properties)")
        else:
            failures.append(dict(function=name, message=msg, at=line, output=block[:3000]))
    # what was proved
    js = r["json"]
    fb = [f for mod in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in mod.get("function-breakdown", [])]
    external = sorted(set(re.findall(r"external_body\][^;{]*?fn\s+(\w+)", text)))
    library = sorted(set(x.strip() for x in re.findall(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*(.*?)\s*\]", text)))
    code = re.sub(r"//[^\n]*", "", text)
    holes = re.findall(r"\b(?:assume|admit)\s*\(", code)
    functions = [rec["name"] for m in mods for rec in m.fns if not rec["external"] and m.name not in assumed]
    elsewhere = [rec["name"] for m in mods for rec in m.fns if m.name in assumed]
    rewrites = {}
    for m in mods:
        for w, a, b, n, reason in m.log:
            rewrites.setdefault(reason, []).append(w)
    cov = dict(obligations=len(fb), discharged=sum(1 for f in fb if f["success"]),
               checker_cmd=r["cmd"].replace(path, "gen.rs"),
               trusted_base=["Verus 0.2026.09.13.671956e with Z3", "rustc", "the extraction (vx/extract.py), whose rewrites are listed"] + [f"contract assumed: {n}" for n in external] + [f"contract of a library function assumed: {n}" for n in library],
               functions_under_contract=functions, obligation_kinds={k: sum(1 for f in fb if f.get("mode:", f.get("mode")) == k) for k in ("exec", "proof", "spec")},
               solver="Z3 (called by Verus)", solver_seconds=round(js.get("times-ms", {}).get("smt", {}).get("smt-run", 0) / 1000, 2), verifier_seconds=round(seconds, 1),
               rewrites={k: sorted(set(v)) for k, v in rewrites.items()}, statement=conf.get("statement", ""))
    if holes:
        why.append(f"{len(holes)} assumptions in the specifications")
    missing = [f for f in conf.get("functions", []) if f not in functions]
    if missing:
        why.append("not under contract: " + ", ".join(missing))
    if not fb:
        why.append("no obligations")
    status = "failed" if failures else "undecided" if why else "accepted"
    if status == "accepted" and not (results.get("success", not errs and results["verified"] > 0 and results["errors"] == 0) and cov["obligations"] == cov["discharged"] > 0):
        status, why = "undecided", ["the verifier did not report success"]
    return dict(status=status, failures=failures, why=why, stderr=r["stderr"][-20000:], coverage=cov,
                assumptions=conf.get("assumptions", []) + [f"the contract of {n} (not proved: unsafe, or a library function)" for n in external + library] + [f"the contract of {n} (proved by the checks of C04, C05, C06, C07 and C13)" for n in elsewhere])


if __name__ == "__main__":
    r = prove(sys.argv[1], "quick", keep=sys.argv[2] if len(sys.argv) > 2 else None)
    r.pop("stderr", None)
    print(json.dumps(r, indent=1))
