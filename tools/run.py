#!/usr/bin/env python3
"""Runs the check of one property: design models and scenarios with TLC, the scenarios on the
real code, the recorded traces against the trace specification.

usage: run.py ID            (VERIF_TIER, VERIF_SEED)
       run.py --replay DIR  (DIR: what a VIOLATION line named)
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
OUT = os.path.join(ROOT, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = 8

# which deviations contradict which property
LAXSTRICT = {"lax", "strict", "bind", "qcount"}
COMPLETE = {"incomplete", "refused", "value", "setup", "srs"}
CATS = {
    "C01": COMPLETE, "C02": LAXSTRICT, "C03": {"lied", "refused", "crashp"}, "C04": COMPLETE,
    "C05": LAXSTRICT, "C06": COMPLETE, "C07": LAXSTRICT, "C08": COMPLETE, "C09": LAXSTRICT,
    "C10": {"bind", "qcount"}, "C11": {"rng"}, "C12": COMPLETE, "C13": LAXSTRICT, "C14": COMPLETE,
    "C15": LAXSTRICT, "C16": {"value", "setup", "lax"}, "C17": COMPLETE, "C18": LAXSTRICT | {"adaptive"},
    "C19": {"value"}, "C20": {"value"}, "C21": {"srs", "value", "strict", "lax"},
    "C22": {"value", "lax", "strict", "incomplete", "srs", "crash"}, "C23": {"crash", "lax"},
    "C24": {"transport", "layout"}, "C25": {"fresh"}, "C26": {"repeat"},
}
# exhaustive design models: (configuration, tiers)
MODELS = json.load(open(os.path.join(ROOT, "tools", "models.json")))


class Broken(Exception):
    """the check itself could not run"""


def say(*a):
    print(*a, flush=True)


def java(args, env, cwd, timeout, heap="2g", extra=()):
    e = dict(os.environ, VERBOSE="1", **env)
    tmp = os.path.dirname(args[args.index("-metadir") + 1])  # TLC unpacks its modules there
    cmd = ["java", f"-Xmx{heap}", f"-Djava.io.tmpdir={tmp}", "-Xss64m", "-XX:+UseSerialGC", *extra, "-cp", CP, "tlc2.TLC", "-nowarning", "-noTE", *args]
    p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(OUT, f"{prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.deadline = time.time() + (860 if tier == "quick" else 6 * 3600)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.models = []
        self.timing = {}

    def left(self):
        return max(5, self.deadline - time.time())

    # ------------------------------------------------------------- steps
    def build(self, features=None, target="target"):
        t = time.time()
        cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(HARNESS, target)]
        if features is not None:
            cmd += ["--no-default-features"] + (["--features", features] if features else [])
        p = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=self.left())
        if p.returncode != 0:
            raise Broken("the harness does not build against /repo:\n" + p.stdout[-4000:])
        self.timing["build " + target] = round(time.time() - t, 1)
        return os.path.join(HARNESS, target, "debug", "ripp-conform")

    def scenarios(self):
        f = os.path.join(self.work, "scenarios.ndjson")
        rc, out = java(["-workers", "1", "-metadir", os.path.join(self.work, "md-scen"), "-config", "scenarios.cfg",
                        "RippScenarios.tla"],
                       {"PROPERTY": self.prop, "TIER": self.tier, "SCENARIOS": f}, SPEC, self.left(), "6g")
        m = re.search(r'"SCENARIOS\|(\d+)"', out)
        if rc != 0 or not m or not os.path.exists(f):
            raise Broken("scenario enumeration failed:\n" + out[-3000:])
        return f, int(m.group(1))

    def model(self, spec):
        name, cfg = spec["module"], spec["cfg"]
        rc, out = java(["-workers", str(spec.get("workers", 2)), "-metadir", os.path.join(self.work, "md-" + cfg), "-config", cfg + ".cfg",
                        name + ".tla"], {}, SPEC, self.left(), "4g")
        expect = spec.get("expect")  # a design known to be wrong: the model has to find the violation
        if expect and expect in out:
            cfg += " (violated, as it has to be)"
        elif expect or "No error has been found" not in out:
            raise Broken(f"design model {cfg}: the specification itself violates its properties\n" + out[-3000:])
        g, d = counts(out)
        return cfg, g, d

    def drive(self, binary, scen, sub, timeout, lanes=max(1, CPUS // 2)):
        """runs the scenarios on the real code; returns traces and hangs.
        In each process `lanes` sessions run side by side (0: one at a time, each in a process of its own)"""
        d = os.path.join(self.work, sub)
        os.makedirs(d)
        per = max(1, lanes)
        t0 = time.time()
        ps = [(i, subprocess.Popen([binary, scen, d, str(self.seed), str(i), str(lanes), str(CPUS)], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, text=True)) for i in range(0, CPUS, per)]
        hangs, end = [], time.time() + timeout
        errs = []

        def at(i):  # the scenarios a process was executing
            fs = [os.path.join(d, f"at-{j}") for j in range(i, i + per)]
            return [open(f).read().strip() for f in fs if os.path.exists(f)]
        for i, p in ps:
            try:
                _, err = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                hangs += [("hang", sid) for sid in at(i)]
                continue
            if p.returncode == 4:  # the code makes threads of its own: one session at a time
                for _, q in ps:
                    q.kill()
                    q.communicate()
                return self.drive(binary, scen, sub + "-alone", timeout - (time.time() - t0), 1)
            if p.returncode == 3:
                errs.append(err[-2000:])
            elif p.returncode != 0:
                # the process died (stack overflow, abort): the code under test gave no verdict
                if p.returncode < 0 and at(i):
                    hangs += [(f"died (signal {-p.returncode}), or another scenario then running", sid) for sid in at(i)]
                else:
                    errs.append(f"harness exit {p.returncode}: {err[-2000:]}")
        if errs:
            raise Broken("harness: " + "\n".join(errs))
        return sorted(glob.glob(os.path.join(d, "*-*.ndjson"))), hangs

    def compare(self, trace, other):
        """the same scenarios recorded side by side and apart"""
        md = trace + ".md2"
        rc, out = java(["-workers", "1", "-metadir", md, "-config", "purity.cfg", "RippPurity.tla"],
                       {"TRACE": trace, "TRACE2": other}, SPEC, self.left(), "2500m", ["-XX:TieredStopAtLevel=1"] if self.tier == "quick" else [])
        shutil.rmtree(md, ignore_errors=True)
        lines = [x[1:-1] for x in out.splitlines() if x.startswith('"') and x.endswith('"')]
        if not any(x.startswith("TRACEDONE|") for x in lines):
            raise Broken(f"comparison of {trace} broke:\n" + out[-2000:])
        g, d = counts(out)
        return [(trace, int(p), int(s), cat, what) for _, p, s, cat, what in (x.split("|", 4) for x in lines if x.startswith("MISMATCH|"))], g, d

    def validate(self, trace):
        p = os.path.basename(trace).split("-")[0]
        md = trace + ".md"
        rc, out = java(["-workers", "1", "-metadir", md, "-config", "trace.cfg", "RippTrace.tla"],
                       {"TRACE": trace, "P": p}, SPEC, self.left(), "2500m", ["-XX:TieredStopAtLevel=1"] if self.tier == "quick" else [])
        shutil.rmtree(md, ignore_errors=True)
        lines = [x[1:-1] for x in out.splitlines() if x.startswith('"') and x.endswith('"')]
        mism = []
        for x in lines:
            if x.startswith("MISMATCH|"):
                _, pos, scen, cat, what = x.split("|", 4)
                mism.append((trace, int(pos), int(scen), cat, what))
        done = any(x.startswith("TRACEDONE|") for x in lines)
        if not done:
            if "OutOfMemoryError" in out or "StackOverflow" in out or "semantic analysis failed" in out or not re.search(r"Error:", out):
                raise Broken(f"trace validation of {trace} broke:\n" + out[-2000:])
            scens = [x for x in lines if x.startswith("SCENARIO|")]
            pos, scen = (scens[-1].split("|")[1:3]) if scens else ("1", "0")
            err = re.search(r"Error: (.*(?:\n.*){0,6})", out).group(1)
            mism.append((trace, int(pos), int(scen), "unexplained", "the specification has no meaning for this event: " + " ".join(err.split())[:300]))
        g, d = counts(out)
        return mism, g, d, done

    # --------------------------------------------------------------- main
    def run(self, binary=None):
        with cf.ThreadPoolExecutor(CPUS) as ex:
            fb = ex.submit(self.build) if binary is None else None
            fs = ex.submit(self.scenarios)
            fm = [ex.submit(self.model, m) for m in MODELS.get(self.prop, []) if self.tier in m.get("tiers", ["quick", "thorough"])]
            f2 = None
            if self.prop == "C19" and binary is None:
                f2 = ex.submit(self.build, "", "target-seq")
            scen, nscen = fs.result()
            binary = binary or fb.result()
            for f in fm:
                cfg, g, d = f.result()
                self.models.append({"model": cfg, "transitions": g, "states": d})
                self.transitions += g
                self.states += d
            seq = f2.result() if f2 else None
            t = time.time()
            limit = min(self.left(), 240 if self.tier == "quick" else 3600)
            traces, hangs = self.drive(binary, scen, "traces", limit)
            if seq:
                t2, h2 = self.drive(seq, scen, "traces-seq", limit)
                traces, hangs = traces + t2, hangs + h2
            apart = []
            if self.prop == "C26":
                apart, h2 = self.drive(binary, scen, "traces-apart", limit, 0)
                hangs = hangs + h2
            self.timing["drive"] = round(time.time() - t, 1)
            t = time.time()
            mism = []
            for m, g, d, done in ex.map(self.validate, sorted(traces, key=lambda f: -os.path.getsize(f))):
                mism += m
                self.transitions += g
                self.states += d
            names = {os.path.basename(a): a for a in apart}
            together = [t for t in traces if os.path.basename(t) in names] if apart else []
            for m, g, d in ex.map(lambda f: self.compare(f, names[os.path.basename(f)]), together):
                mism += m
                self.transitions += g
                self.states += d
            if apart and not hangs and len(together) != len(names):
                raise Broken("the two recordings have different files")
            self.timing["validate"] = round(time.time() - t, 1)
        for kind, s in hangs:
            mism.append((None, 0, int(s or 0), "crash", f"no verdict: {kind}"))
        return scen, nscen, traces, mism


def known_findings(prop):
    out = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) category=(\S+) op=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def event(trace, pos):
    if not trace:
        return {}
    with open(trace) as f:
        for i, line in enumerate(f):
            if i == pos - 1:
                return json.loads(line)
    return {}


def scenario(scen, sid):
    with open(scen) as f:
        for line in f:
            if json.loads(line)["id"] == sid:
                return json.loads(line)
    return {}


def report(c, scen, nscen, traces, mism):
    prop = c.prop
    cats = CATS[prop] | {"unexplained"}
    known, found, other, seen_known = known_findings(prop), [], {}, {}
    # a code under test that never returns or dies contradicts whatever was to be decided
    for m in mism:
        trace, pos, sid, cat, what = m
        if cat not in cats and not (cat == "crash" and what.startswith("no verdict")):
            other[cat] = other.get(cat, 0) + 1
            continue
        ev = event(trace, pos)
        k = next((k for k in known if k[0] == cat and k[1] == ev.get("op", "-")), None)
        if k:
            seen_known[k] = seen_known.get(k, 0) + 1
        else:
            found.append((m, ev))
    for k, n in seen_known.items():
        say(f"KNOWN-FINDING: property={prop} {k[2]} ({n} times)")
    stats, calls, samples = {}, 0, []
    for t in traces:
        with open(t) as f:
            for i, line in enumerate(f):
                e = json.loads(line)
                calls += 1
                key = f"{e['e']}{' ' + str(e['op']) if 'op' in e else ''}{' ' + str(e['kind']) if e['e'] in ('ip', 'commit') else ''} {e.get('res', '')}"
                stats[key] = stats.get(key, 0) + 1
                if len(samples) < 3 and e["e"] not in ("begin", "setup") and i % 97 == 7 % (1 + len(samples)):
                    samples.append(line.strip()[:700])
    ev = {
        "property": prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
        "coverage": {
            "states": c.states, "transitions": c.transitions,
            "traces_validated_against_impl": nscen * (2 if prop == "C19" else 1),
            "samples": samples or [scenario(scen, 1)],
            "library_calls_validated": calls,
            "calls_by_kind_and_result": stats,
            "design_models": c.models,
            "deviations_of_other_properties": other,
        },
        "assumptions": [
            "TLC evaluates the specification correctly",
            "the toy groups of order P (discrete logarithms known) exercise the generic code as real groups do",
            "the recorded oracle stands for the hash function",
        ],
        "wall_s": round(time.time() - c.t0, 1), "violations": len(found), "timing_s": c.timing,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say(f"{prop} {c.tier}: {nscen} scenarios, {calls} calls, {c.states} states, {len(found)} violations, "
        f"other {other or 'none'}, {ev['wall_s']} s {c.timing}")
    if not found:
        return 0
    by = {}
    for m, e in found:
        by.setdefault((m[3], e.get("op", e.get("kind", "")), re.sub(r"\d+", "#", m[4])), []).append((m, e))
    for n, (key, ms) in enumerate(sorted(by.items(), key=lambda x: str(x[0]))[:8]):
        (trace, pos, sid, cat, what), e = ms[0]
        d = os.path.join(OUT, "violations", f"{prop}-{n + 1}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "scenarios.ndjson"), "w") as f:
            f.write(json.dumps(scenario(scen, sid)) + "\n")
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump({"property": prop, "seed": c.seed, "category": cat, "what": what, "event": e,
                       "occurrences": len(ms), "replay": f"{ROOT}/check.sh --replay {d}"}, f, indent=1)
        say(f"  {cat} ({len(ms)}x) scenario {sid}: {e.get('e', '')} {e.get('op', '')} [{e.get('why', '')}] {what}")
        say(f"VIOLATION property={prop} replay={d}")
    return 1


def replay(d):
    v = json.load(open(os.path.join(d, "violation.json")))
    c = Check(v["property"], "quick", v["seed"])
    binary = c.build()
    traces, hangs = c.drive(binary, os.path.join(d, "scenarios.ndjson"), "traces", 200)
    bad = [h for h in hangs]
    for t in traces:
        for m in c.validate(t)[0]:
            bad.append(m)
            say(m[1:], json.dumps(event(m[0], m[1])))
    say("hangs:", hangs)
    return 1 if bad else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, "thorough" if tier == "thorough" else "quick", seed)
    binary = os.environ.get("RIPP_CONFORM")  # development only
    r = c.run(binary)
    rc = report(c, *r)
    shutil.rmtree(c.work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        say("CHECK ERROR:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        say("CHECK ERROR: timeout", e)
        sys.exit(2)
