#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, technique="", note="", na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook, technique=technique, note=note, na=na, level=level))

DISP = ["src/dispatch_group_u8.rs", "src/dispatch_group_u16.rs", "src/dispatch_group_f32.rs", "src/dispatch_group_f16.rs", "src/dispatch_group_ar30.rs"]
PLANES = ["src/plane_u8.rs", "src/cbcr8.rs", "src/rgb_u8.rs", "src/rgba_u8.rs", "src/plane_u16.rs", "src/cbcr16.rs", "src/rgb_u16.rs", "src/rgba_u16.rs", "src/plane_f32.rs", "src/cbcr_f32.rs", "src/rgb_f32.rs", "src/rgba_f32.rs"]
SIMD = ["src/sse", "src/avx2", "src/avx512"]
ENUM = "exhaustive bounded enumeration of calls on the real code (stateless model checking by execution) against "

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                    "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                    "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API of the crate only, built from /repo as a path dependency of /verif/mc", "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    import jsonschema
    S = "/root/.vp/"
    if os.path.exists(S + "MANIFEST.schema.json"):
        jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
        sch = json.load(open(S + "PROPERTIES.schema.json"))
        for l in open(os.path.join(ROOT, "properties.jsonl")): jsonschema.validate(json.loads(l), sch)
    print(len(checks), "checks,", len(na), "not applicable")
main()
