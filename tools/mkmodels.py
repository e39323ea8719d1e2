#!/usr/bin/env python3
"""writes the configurations of the design models (spec/MC*.cfg) and tools/models.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
models = {}
Q, T = ["quick", "thorough"], ["thorough"]

def add(props, module, name, consts, checks, tiers, spec="Spec", props_live=(), expect=None, workers=2):
    lines = ["CONSTANTS"] + [f"  {k} = {json.dumps(v) if isinstance(v, str) else str(v).upper() if isinstance(v, bool) else v}" for k, v in consts.items()]
    lines += [f"SPECIFICATION {spec}"] + (["INVARIANTS " + " ".join(checks)] if checks else [])
    lines += ["PROPERTY " + " ".join(props_live)] if props_live else []
    lines += ["CHECK_DEADLOCK FALSE", ""]
    open(os.path.join(R, "spec", name + ".cfg"), "w").write("\n".join(lines))
    for p in props.split():
        m = {"module": module, "cfg": name, "tiers": tiers, "workers": workers}
        if expect:
            m["expect"] = expect
        models.setdefault(p, []).append(m)

INV = ["Complete", "SentIsExpected", "FoldInvariant", "SippInvariant", "KeyForms"]
def complete(prop, name, P, op, n, full, retries, tiers, live=False):
    add(prop, "MCComplete", "MCComplete_" + name, {"P": P, "Op": op, "N": n, "Full": full, "Retries": retries}, INV, tiers,
        "Live" if live else "Spec", ["Finishes"] if live else [], workers=2 if tiers is Q else 8)

for op, prop in [("gipa", "C01"), ("tipa", "C04"), ("ssm", "C06"), ("tssm", "C06"), ("sipp", "C08")]:
    complete(prop, op + "_1", 5, op, 1, False, 1, Q)
    complete(prop, op + "_4", 3, op, 4, False, 0, Q)
    complete(prop, op + "_live", 3, op, 2, False, 1, T, True)
    complete(prop, op + "_full", 3, op, 2, True, 1, T)
    complete(prop, op + "_8", 3, op, 8, False, 1, T)
complete("C01", "gipa_2", 5, "gipa", 2, False, 1, Q)
complete("C04", "tipa_2", 3, "tipa", 2, False, 1, Q)
complete("C06", "ssm_2", 5, "ssm", 2, False, 1, Q)
complete("C06", "tssm_2", 3, "tssm", 2, False, 1, Q)
complete("C08", "sipp_2", 7, "sipp", 2, False, 0, Q)
complete("C04", "tipa_4p5", 5, "tipa", 4, False, 1, T)
complete("C01", "gipa_4p5", 5, "gipa", 4, False, 1, T)
for op, prop in [("tpc", "C12"), ("npc", "C14")]:
    complete(prop, op + "_1", 3, op, 1, False, 0, Q)
    complete(prop, op + "_2", 3, op, 2, False, 0, Q)
    complete(prop, op + "_2r", 3, op, 2, False, 1, T)
    complete(prop, op + "_4", 3, op, 4, False, 0, T)
complete("C17", "agg_1", 5, "agg", 1, False, 0, Q)
complete("C17", "agg_2", 3, "agg", 2, False, 0, Q)
complete("C17", "agg_4", 3, "agg", 4, False, 0, T)
complete("C17", "agg_2r", 3, "agg", 2, False, 1, T)

SINV = ["RoundA", "RoundT", "RoundS", "Keys", "Batch", "AfterR"]
for part, props, p, deep in [("A", "C02 C07", 5, 7), ("T", "C02 C07", 5, 7), ("S", "C09", 5, 7), ("K", "C05 C13", 3, 5), ("R", "C18", 3, 5)]:
    add(props, "MCSound", "MCSound_" + part, {"P": p, "Part": part}, SINV, Q, workers=4)
    add(props, "MCSound", f"MCSound_{part}_deep", {"P": deep, "Part": part}, SINV, T, workers=8)
AINV = ["Bilinear", "Division", "KzgExact", "SrsExact", "KeyOpenings", "RowsCover"]
for part, props, p, deep in [("commit", "C19 C20", 3, 3), ("poly", "C12 C13 C14 C15 C22", 5, 7), ("kzg", "C13 C22", 3, 5),
                             ("srs", "C21", 3, 5), ("keys", "C05 C07 C21", 3, 7), ("shape", "C16", 7, 11)]:
    add(props, "MCAlgebra", "MCAlgebra_" + part, {"P": p, "Part": part}, AINV, Q)
    if deep != p:
        add(props, "MCAlgebra", f"MCAlgebra_{part}_deep", {"P": deep, "Part": part}, AINV, T, workers=8)
for op, props in [("gipa", "C02 C23"), ("tipa", "C05 C23"), ("ssm", "C07 C23"), ("tssm", "C07 C23"), ("sipp", "C09 C23")]:
    add(props, "MCVerdict", "MCVerdict_" + op, {"P": 3, "Op": op, "N": 2, "MaxRounds": 2, "Retries": 0}, ["HasVerdict"], Q, "Spec", ["Settled"])
    add(props, "MCVerdict", f"MCVerdict_{op}_live", {"P": 3, "Op": op, "N": 2, "MaxRounds": 2, "Retries": 1}, ["HasVerdict"], T, "Spec", ["Finishes", "Settled"], workers=8)
B = {"P": 3, "Rounds": 1, "Runs": 2, "BindStatement": True, "Tipa": False}
add("C10", "MCBind", "MCBind", B, ["Bound", "Agreed"], Q, workers=4)
add("C10", "MCBind", "MCBind_tipa", dict(B, Tipa=True), ["Bound", "Agreed"], T, workers=8)
add("C10", "MCBind", "MCBind_deep", dict(B, Rounds=2), ["Bound", "Agreed"], T, workers=8)
# the design before the fix has to fail: the model can tell the difference
add("C10", "MCBind", "MCBind_old", dict(B, BindStatement=False), ["Bound"], Q, expect="Invariant Bound is violated")
G = {"Separated": True, "Ops": 3, "MaxData": 2}
add("C11", "MCRng", "MCRng", G, ["Determined"], Q)
add("C11", "MCRng", "MCRng_deep", dict(G, Ops=4), ["Determined"], T, workers=8)
add("C11", "MCRng", "MCRng_old", dict(G, Separated=False), ["Determined"], Q, expect="Invariant Determined is violated")
I = {"P": 3, "Shared": False, "Calls": 2, "Rounds": 2}
add("C26", "MCInterleave", "MCInterleave", I, ["Undisturbed"], Q)
add("C26", "MCInterleave", "MCInterleave_deep", dict(I, P=5), ["Undisturbed"], T, workers=8)
add("C26", "MCInterleave", "MCInterleave_three", dict(I, Calls=3, Rounds=1), ["Undisturbed"], T, workers=8, props_live=["AllEnd"])
add("C26", "MCInterleave", "MCInterleave_shared", dict(I, Shared=True), ["Undisturbed"], Q, expect="Invariant Undisturbed is violated")
with open(os.path.join(R, "tools", "models.json"), "w") as f:
    json.dump(models, f, indent=1, sort_keys=True)
    f.write("\n")
