#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
models = json.load(open(os.path.join(R, "tools/models.json")))
checks = []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line)["id"]
    ms = ", ".join(m["cfg"].replace(".cfg", "") for m in models.get(p, []))
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "TLA+ specification checked with TLC; scenarios generated by TLC from the specification are run on the "
                     "real code over toy groups and a recorded random oracle, and TLC validates every recorded call against the specification",
        "level": "model_checking",
        "level_note": ("Design model(s) " + ms + " explored exhaustively over small fields. " if ms else "")
                      + "Every library call of the scenarios is matched with the specification's own computation over the scalar field "
                        "(trace validation). Assumes TLC is right, groups of known discrete logarithm exercise the generic code as real "
                        "curves do, and the hash is an oracle whose answers are recorded.",
    })
m = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --offline",
    "hooks": {
        "guard": "ripp_verif",
        "enable": "harness/.cargo/config.toml passes --cfg ripp_verif to rustc (build.rustflags)",
        "source_commits": ["44c4e4f"],
    },
    "checks": checks,
    "not_applicable": [],
}
m["hooks"]["source_commits"] = [os.popen("git -C /repo rev-parse 44c4e4f").read().strip() or "44c4e4f"]
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
