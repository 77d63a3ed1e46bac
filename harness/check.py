"""
check.py <property> <quick|thorough>        run a check
check.py replay <file>                      judge one reported case again
"""
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(var, "1")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")

import tlcrun                                   # noqa: E402
from tlcrun import MachineryError               # noqa: E402


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.detail = {}
        self.assumptions = []
        self.violations = []
        self.t0 = time.time()

    def rng(self, salt=""):
        return random.Random("{}|{}|{}".format(self.seed, self.prop, salt))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, budget):
        """Seconds left of a time budget of this run."""
        return budget - (time.time() - self.t0)

    def count(self, key, k=1):
        self.detail[key] = self.detail.get(key, 0) + k

    def model(self, name, module, cfg=None, **kw):
        """Exhaustive model run; it must hold (it is about the specification)."""
        t = time.time()
        r = tlcrun.model(module, cfg, **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.detail["model " + name] = {"states": r["states"], "transitions": r["transitions"],
                                        "seconds": round(time.time() - t, 1)}
        if not r["ok"]:
            raise MachineryError("model {} does not satisfy its properties:\n{}".format(
                name, r["out"][-4000:]))
        return r

    def instances(self, rng, most, kind, N, V=0, X=0, T=0):
        """Instances of the space that TLC lists; all of them, or a sample of most."""
        bases, tables = tlcrun.instances(kind, N, V, X, T)
        size = len(bases) * len(tables)
        picked = range(size) if most is None or size <= most else rng.sample(range(size), most)
        name = "instances {} N={} V={}{}".format(
            kind, N, V, " X={} T={}".format(X, T) if X or T else "")
        self.detail[name] = self.detail.get(name, []) + ["{} of {}".format(len(picked), size)]
        res = []
        for k in picked:
            inst = dict(bases[k // len(tables)])
            if kind != "start":
                inst["attr"] = tables[k % len(tables)]
            inst["nb"] = [[b - 1 for b in s] for s in inst["nb"]]
            res.append(inst)
        return res

    def judge(self, name, module, jobs, cases, fmt=None, **kw):
        """
        Let TLC decide all cases (recorded from the real code); jobs[i] is the
        JSON-able description from which cases[i] was recorded.
        """
        t = time.time()
        verdicts, (tr, st) = tlcrun.judge(module, cases, **kw)
        self.transitions += tr
        self.states += st
        self.traces += len(cases)
        self.detail["cases " + name] = self.detail.get("cases " + name, 0) + len(cases)
        self.detail["seconds " + name] = round(
            self.detail.get("seconds " + name, 0) + time.time() - t, 1)
        bad = 0
        for job, case, (clause, text) in zip(jobs, cases, verdicts):
            if clause == "ok":
                continue
            bad += 1
            self.violations.append(dict(name=name, module=module, job=job, case=case,
                                        clause=clause, detail=text))
        if cases and len(self.samples) < 6:
            k = self.rng(name).randrange(len(cases))
            self.samples.append({"check": name, "job": jobs[k], "verdict": verdicts[k][0],
                                 "case": shorten(cases[k])})
        return verdicts


def shorten(case, limit=1500):
    text = json.dumps(case, default=str)
    return case if len(text) <= limit else text[:limit] + "..."


def known_findings(prop):
    """Open findings: lines 'finding: property=<id> key=<key> <text>'."""
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property={} key=".format(prop)):
                rest = line.split(" key=", 1)[1].strip()
                key, _, text = rest.partition(" ")
                res[key] = text
    return res


def finding_key(v):
    body = json.dumps([v["module"], v["clause"], v["job"]], sort_keys=True, default=str)
    return hashlib.sha256(body.encode()).hexdigest()[:16]


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else
                               os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="verif-{}-".format(prop))
    os.environ["VERIF_SCRATCH"] = scratch
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    ctx = Context(prop, tier, seed)
    status = 0
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
    except BaseException as e:
        traceback.print_exc()
        print("MACHINERY-ERROR property={} {}".format(prop, type(e).__name__))
        status = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(prop)
    seen_known = set()
    reported = 0
    outdir = os.path.join(ROOT, "work", "replay")
    os.makedirs(outdir, exist_ok=True)
    clauses = {}
    for v in ctx.violations:
        key = finding_key(v)
        if key in known:
            if key not in seen_known:
                print("KNOWN-FINDING: property={} {}".format(prop, known[key]))
                seen_known.add(key)
            continue
        reported += 1
        c = (v["name"], v["clause"])
        clauses[c] = clauses.get(c, 0) + 1
        if clauses[c] > 2 or reported > 40:
            continue
        path = os.path.join(outdir, "{}-{}.json".format(prop, key))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, seed=seed), f, indent=1, default=str)
        print("  {}: {} {}".format(v["name"], v["clause"], v["detail"]))
        print("VIOLATION property={} replay={}".format(prop, path))
    if reported:
        print("{} of {} recorded cases violate {}: {}".format(
            reported, ctx.traces, prop,
            ", ".join("{}/{}={}".format(k[0], k[1], n) for k, n in sorted(clauses.items()))))
        status = 1
    coverage = {"states": ctx.states, "transitions": ctx.transitions,
                "traces_validated_against_impl": ctx.traces, "samples": ctx.samples}
    coverage.update(ctx.detail)
    with open(evidence, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": coverage, "assumptions": ctx.assumptions,
                   "wall_s": round(time.time() - ctx.t0, 2), "violations": reported},
                  f, indent=1, default=str)
    print("{} {}: {} traces/cases against the code, {} states, {:.1f} s, {}".format(
        prop, tier, ctx.traces, ctx.states, time.time() - ctx.t0,
        "ok" if status == 0 else "VIOLATED" if status == 1 else "ERROR"))
    return status


def replay(path):
    v = json.load(open(path))
    print(json.dumps({k: v[k] for k in ("property", "name", "clause", "detail", "job")}, indent=1))
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        mod = importlib.import_module("checks." + v["property"].lower())
        recorder = getattr(mod, "RECORDERS", {}).get(v["name"])
        cases = [v["case"]]
        if recorder is not None:
            import common
            cases = common.record(recorder, [v["job"]], procs=1)
            if cases and isinstance(cases[0], list):
                cases = cases[0]
        verdicts, _ = tlcrun.judge(v["module"], cases)
        print("verdicts now:", verdicts)
        return 0 if all(x[0] == "ok" for x in verdicts) else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
