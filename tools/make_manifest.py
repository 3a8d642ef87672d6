"""Writes MANIFEST.json"""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
cases = json.load(open(D + "/cases.json"))
NOTE = {p: dict(technique=c["technique"], note=c["explanation"]) for p, c in json.load(open(D + "/proofs.json")).items()}
checks = []
for p, c in cases.items():
    n = NOTE.get(p, {})
    checks.append(dict(property=p, quick_cmd=f"VERIF_TIER=quick python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
        technique=n.get("technique", "bounded comparison of the real code with an independent oracle"),
        level=c["level"], level_note=n.get("note", "bounded: generated cases only"), **({"theorems": n["theorems"]} if "theorems" in n else {})))
m = dict(version=1, setup_cmd="python3 -c 'import json; json.load(open(\"tools/cases.json\"))'", checks=checks,
    hooks=dict(guard="--cfg noodle_verif", enable="RUSTFLAGS='--cfg noodle_verif' makes the modules bitset and matcher public; no registered check needs it", source_commits=["0ec42b2"]),
    not_applicable=[
        dict(property="C16", reason="releasing what a connection holds is a liveness property of an async server over external crates (tokio, warp); contract verification has no handle on it, and there is no sequential code to put under contract"),
        dict(property="C17", reason="the time a generated backtracking parser (pest) takes is neither expressible as a functional contract nor is the generated code within the verifier's reach"),
    ])
json.dump(m, open(D + "/../MANIFEST.json", "w"), indent=1)
