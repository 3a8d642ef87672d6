#!/usr/bin/env python3
"""check.py Cxx: decides one property on /repo's current working tree.

1. The contracts of the functions the property depends on are spliced into the functions as they
   are now, and Verus has to discharge every obligation (vx/, specs/).
2. The real crate is built and compared with an independent oracle on generated cases (replay/).
   This is what replays a violation; on its own it is a bounded stand-in, and labelled so.
"""
import json, os, re, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/vx", V + "/specs"]
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
REPLAY = V + "/replay"
OUT = V + "/evidence"
os.makedirs(OUT, exist_ok=True)

# cases in the quick tier (about 15 s on 8 cores), and how cases are made
CASES = json.load(open(V + "/tools/cases.json"))


def known():
    """known_findings.txt: `known: property=Cxx <text>` or `fixed: property=Cxx <commit> <text>`"""
    out = []
    p = V + "/known_findings.txt"
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=`(.*?)` (.*)", line)
        if m and m.group(1) == PROP:
            out.append((m.group(2), m.group(3)))
    return out


def build():
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "search"]
    p = subprocess.run(cmd, cwd=REPLAY, capture_output=True, text=True, timeout=600)
    return p.returncode == 0, p.stderr


def search(count, seconds, seed, extra=(), timeout=None):
    cmd = [REPLAY + "/target/debug/search", PROP, "--seed", str(seed), "--count", str(count), "--seconds", str(seconds), *extra]
    with tempfile.TemporaryDirectory(prefix="noodle-check-") as tmp:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout or seconds + 200, errors="replace", cwd=OUT, env=dict(os.environ, TMPDIR=tmp))
    js = [l for l in p.stdout.splitlines() if l.startswith("{")]
    return cmd, p.returncode, (json.loads(js[-1]) if js else None), p.stderr


def find(count, seconds, seed):
    """A dictionary with the counts, and the failure (or None)"""
    cmd, rc, js, err = search(count, seconds, seed)
    if js is not None:
        f = js["failure"]
        if f:
            f = dict(input=f["input"], what=f["what"], replay_cmd=" ".join(cmd[:2] + ["--seed", str(seed), "--only", str(f["case"])]))
        return js, f
    # The process died: which case was it?
    log = f"{OUT}/{PROP}.log"
    search(count, seconds, seed, ["--log", log])
    open_ = {}
    for l in open(log, errors="replace"):
        m = re.match(r"case (\d+) (making|start|end)(.*)", l)
        if not m:
            continue
        if m.group(2) == "end":
            open_.pop(m.group(1), None)
        else:
            open_[m.group(1)] = m.group(3).strip()
    os.remove(log)
    js = dict(cases=0, nontrivial=0, comparisons=0, seconds=0, samples=[])
    for c, text in open_.items():
        cmd, rc, j, err = search(1, 60, seed, ["--only", c])
        if j is None:
            return js, dict(input=text.replace("\\n", "\n"), what=f"the process ends with status {rc}: {err[-1000:]}", replay_cmd=" ".join(cmd))
        if j["failure"]:
            return js, dict(input=text, what=j["failure"]["what"], replay_cmd=" ".join(cmd))
    return js, dict(input=json.dumps(open_), what=f"the process ends with status {rc}: {err[-1000:]}", replay_cmd=" ".join(cmd))


def main():
    conf = CASES[PROP]
    proof = {}

    def prove_():
        try:
            import prove
            proof.update(prove.prove(PROP, TIER, until=T0 + (520 if TIER == "quick" else 2400)))
        except Exception as e:      # the proof could not be attempted
            import traceback
            proof.update(status="undecided", why=[f"{type(e).__name__}: {e}"], trace=traceback.format_exc())

    th = threading.Thread(target=prove_, daemon=True)
    if conf.get("proof"):
        th.start()
    ok, err = build()
    if not ok:
        print("the crate does not build:\n" + err[-3000:])
        return 2
    n, secs = conf["quick"] if TIER == "quick" else (conf["quick"][0] * 40, 600)
    total, fail = find(n, secs, SEED)
    if conf.get("proof"):
        # With a failing input at hand, the proof is only waited for a while
        th.join(max(20, T0 + 150 - time.time()) if fail else None)
        if th.is_alive():
            import build as verifier
            verifier.stop(for_good=True)
            th.join(20)
            proof = dict(status="undecided", why=["not waited for: there is a failing input"])
    extra = None
    if fail is None and proof.get("status") == "failed":
        # An obligation fails: look for longer for an input which shows it
        for s in range(1, 5):
            if TIER == "quick" and time.time() > T0 + 740:
                break
            extra, fail = find(n * 3, 60, SEED + 1000 * s)
            if fail:
                break
    if fail is None and proof.get("status") == "undecided":
        # Only the bounded part decides: explore more
        extra, fail = find(n * 2, 60, SEED + 7777)
        for k in ("cases", "nontrivial", "comparisons"):
            total[k] += extra.get(k, 0)
    violations = 0
    rc = 0
    replay = f"{OUT}/{PROP}.replay.json"
    listed = known()
    if fail:
        hit = [k for k in listed if k[0] in fail["input"] + " " + fail["what"]]
        if hit:
            fail = None
    for key, text in listed:
        print(f"KNOWN-FINDING: property={PROP} {text}")
    if fail:
        json.dump(dict(property=PROP, **fail, failed_obligations=proof.get("failures", [])), open(replay, "w"), indent=1)
        print(fail["input"][:2000])
        print(fail["what"][:2000])
        for f in proof.get("failures", []):
            print("failed obligation:", f["function"], f["message"])
        print(f"VIOLATION property={PROP} replay={replay}")
        violations, rc = 1, 1
    elif proof.get("status") == "failed":
        json.dump(dict(property=PROP, failed_obligations=proof["failures"], verifier_output=proof.get("stderr", "")[-20000:]), open(replay, "w"), indent=1)
        for f in proof["failures"]:
            print("failed obligation:", f["function"], f["message"])
        print(f"VIOLATION property={PROP} replay={replay} no-failing-input-found")
        violations, rc = 1, 1
    elif os.path.exists(replay):
        os.remove(replay)

    # Evidence
    explored = dict(evaluations=total["cases"], distinct_nontrivial=total["nontrivial"], rule=conf["rule"], samples=total["samples"] or ["(none)"], comparisons=total["comparisons"])
    assumptions = list(conf.get("assumptions", []))
    level = conf["level"]
    if proof.get("status") == "accepted":
        cov = dict(proof["coverage"])
        cov["bounded_part"] = explored
        cov["explanation"] = conf.get("explanation", "")
        assumptions += proof.get("assumptions", [])
    elif conf.get("proof"):
        cov = dict(explored)
        level = "exploration"
        cov["proof_not_completed"] = {k: v for k, v in proof.items() if k in ("status", "why", "failures", "coverage", "trace")}
        cov["note"] = "the proof was not completed on this tree: this run decided the property on the generated cases only (bounded)"
        if proof.get("status") == "undecided":
            print("proof undecided:", "; ".join(proof["why"])[:2000])
    else:
        cov = dict(explored)
    json.dump(dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions, violations=violations, wall_s=round(time.time() - T0, 1)),
              open(f"{OUT}/{PROP}.json", "w"), indent=1)
    if rc == 0:
        c = proof.get("coverage", {})
        print(f"{PROP}: held; {total['cases']} cases" + (f", {c.get('discharged')} of {c.get('obligations')} obligations discharged" if c else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main())
