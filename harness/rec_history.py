"""Recording histories of fits, judged by EstimatorTrace.tla."""
import json
import math
import os
import random
import subprocess
import sys

import numpy as np

import algos
import api
import gen
import rec_exact
import rec_skater
from common import clean, int_labels

WHAT = {"azp": "pregions", "sa": "pregions", "tabu": "pregions", "rtabu": "pregions",
        "pexact": "pregions", "maxp": "maxp", "maxpexact": "maxp", "skater": "skater"}


# --------------------------------------------------------------------------
# requests

def rand_request(rng, kind, nmax=8, fmt=None, start=None, obj=None, nmin=1, ties=True):
    """A satisfiable request; constructor parameters are not part of it."""
    job = dict(est=kind)
    if kind == "skater":
        job.update(rec_skater.rand_skater(rng, "fit", nmax), est=kind, fmt="w", affinity=False,
                   nodata=False, trace=False)
        n = len(job["nb"])
        job["names"] = job.get("names") or list(range(n))
        job["order"] = list(range(n))
        comps = gen.components(job["nb"])
        job["quorum"] = min([job["quorum"]] + [len(c) for c in comps])
        if not job["attr"] or len(job["attr"]) != n:
            job["attr"] = gen.rand_attr(rng, n)
        job["n"] = min(job["n"], n)
        return job
    exact = kind in ("pexact", "maxpexact")
    if exact:
        nmax = min(nmax, 5)
    job["fmt"] = fmt or rng.choice(api.FORMATS)
    nb = api.rand_map_for(rng, job, nmin, nmax)
    while exact and len(nb) > 6:
        nb = api.rand_map_for(rng, job, nmin, nmax)
    n = len(nb)
    if kind == "sa" or not ties:
        job["obj"] = dict(kind="pairwise", metric="manhattan", centre="mean", red="sum")
        attr = [[3 * (1 << min(k, 20)) + rng.randint(0, 1)] for k in range(n)]
        rng.shuffle(attr)
    elif exact:
        job["metric"] = rng.choice(["manhattan", "cityblock", "euclidean", "sqeuclidean"])
        job["method"] = rng.choice(["flow", "order", "tree"])
        attr = gen.attr_for_metric(rng, n, job["metric"])
    else:
        job["obj"], attr = algos.rand_obj(rng, n)
    job["attr"] = attr
    if kind in ("maxp", "maxpexact"):
        while True:
            ext = rec_exact.rand_ext(rng, n)
            if min(x for row in ext for x in row) >= 0:
                break
        job["ext"] = ext
        job["scalarthr"] = len(ext[0]) > 1 and rng.random() < 0.3
        thr = rec_exact.rand_thr(rng, nb, ext, same=job["scalarthr"])
        if rng.random() < 0.6:
            thr = [t // 2 for t in thr]
            if job["scalarthr"]:
                thr = [min(thr)] * len(thr)
        job["thr"] = thr
        if kind == "maxp":
            job["max_it"] = rng.choice([1, 1, 2, 3])
        return job
    job["p"] = gen.rich_p(rng, nb) if not exact and rng.random() < 0.6 else gen.rand_p(rng, nb)
    if kind in api.HEUR and (start or (start is None and rng.random() < 0.5)):
        job["start"] = gen.rand_start(rng, nb, job["p"])
    if kind == "sa":
        job["cool"] = rng.choice([0.1, 0.5, 0.85])
    return job


def vary(rng, job, ties):
    """A satisfiable request about the same map that differs in a single respect."""
    job, kind, n = dict(job), job["est"], len(job["nb"])
    k = len(gen.components(job["nb"]))
    ways = ["attr"]
    if kind == "skater":
        ways += ["n", "quorum"]
    elif kind in ("maxp", "maxpexact"):
        ways += ["thr", "ext"]
    else:
        ways += ["p", "p"]
    if kind == "pexact":
        ways += ["method"]
    if kind != "skater" and ties:
        ways += ["metric", "metric", "metric"] if kind in ("maxp", "maxpexact") else ["metric"]
    if "obj" in job and kind != "skater" and ties:
        ways += ["kind"]
    way = rng.choice(ways)
    if way == "attr":
        job["attr"] = rng.sample(job["attr"], n)
    elif way == "n":
        job["n"] = rng.randint(1, n)
    elif way == "quorum":
        job["quorum"] = rng.randint(0, min(len(c) for c in gen.components(job["nb"])))
    elif way == "thr":
        job["thr"] = [t // 2 for t in job["thr"]]
    elif way == "ext":
        m = len(job["ext"][0])
        cs = gen.components(job["nb"])
        c = rng.choice(cs)
        for a, b in zip(c, rng.sample(c, len(c))):
            job["ext"] = [list(r) for r in job["ext"]]
            job["ext"][a], job["ext"][b] = job["ext"][b], job["ext"][a]
    elif way == "p":
        job["p"] = rng.randint(k, n)
        job.pop("start", None)
    elif way == "method":
        job["method"] = rng.choice(["flow", "order", "tree"])
    elif way == "metric":
        metric = rng.choice(["manhattan", "sqeuclidean", "chebyshev", "first", "last", "first"])
        if "obj" in job:
            job["obj"] = dict(job["obj"], metric=metric)
        else:
            job["metric"] = metric
    else:
        o = job["obj"]
        job["obj"] = dict(o, kind="centre" if o["kind"] == "pairwise" else "pairwise",
                          metric="manhattan" if o["metric"] == "cosine" else o["metric"],
                          centre=rng.choice(["mean", "max"]), red=rng.choice(["sum", "max"]))
    return job


def rand_cons(rng, kind, n=8):
    """Constructor parameters."""
    cons = dict(est=kind, seed=rng.randrange(10 ** 6), par={})
    if kind in api.HEUR:
        par = algos.rand_par(rng, kind, n=n)
        if kind == "sa":
            par["max_iterations"] = rng.choice([1, 2, 3])
        cons["par"] = {k: ("inf" if v == math.inf else v) for k, v in par.items()}
    if kind == "maxp":
        cons["ls"] = rng.choice([None, None, "azp", "sa", "rtabu"])
        if cons["ls"]:
            cons["lspar"] = rand_cons(rng, cons["ls"])["par"]
    if kind == "skater":
        cons["obj"] = dict(kind="centre", metric=rng.choice(["manhattan", "sqeuclidean"]),
                           centre=rng.choice(["mean", "median"]), red=rng.choice(["sum", "max"]))
    return cons


def unjson(par):
    return {k: math.inf if v == "inf" else v for k, v in par.items()}


def build(cons, **more):
    c = dict(cons, **more)
    c["par"] = unjson(c.get("par", {}))
    if c.get("lspar"):
        c["lspar"] = unjson(c["lspar"])
    if isinstance(c.get("seed"), str) and c["seed"].startswith("bytes:"):
        c["seed"] = c["seed"][6:].encode()
    return api.construct(c)


# --------------------------------------------------------------------------
# invalid requests

BADPAR = {
    "azp": [],
    "sa": [("max_iterations", [0, -1, -5]), ("nonmoving_steps_before_stop", [0, -1]),
           ("sa_moves_term", [0, -1, 1.5, "2"]), ("init_temperature", [None])],
    "tabu": [("tabu_length", [-1, -3, 1.5, "3"])],
    "rtabu": [("max_iterations", [0, -1, -10])],
}


def spoils(job):
    """The kinds of invalidity that make sense for a request."""
    kind, fmt = job["est"], job["fmt"]
    nb = job["nb"]
    out = []
    k = len(gen.components(nb))
    if kind in api.HEUR or kind == "pexact":
        out += ["p-high", "p-high2", "p-zero", "p-neg"]
        if k > 1:
            out += ["p-low", "p-low"]
        if kind == "pexact":
            out += ["p-kind", "method", "solver", "metric"]
        else:
            out += ["metric"]
            if len(nb) > 2 and job["p"] > 1:
                out += ["start-count"]
            out += ["start-split", "start-split", "start-short", "start-long", "start-joined"]
    if kind == "azp":
        out += ["strategy"]
    if kind == "sa":
        out += ["cooling"]
    if BADPAR.get(kind):
        out += ["par", "par"]
    if kind in ("maxp", "maxpexact"):
        out += ["thr", "thr", "thr-one"]
        out += ["max_it", "metric"] if kind == "maxp" else ["solver", "metric"]
    if fmt == "dict":
        out += ["key-missing", "key-added", "key-renamed", "neighbour-unknown", "ragged"]
        if kind in ("maxp", "maxpexact", "pexact"):
            out += ["not-a-dict"]
    if fmt == "nx":
        out += ["column-unknown", "column-partial", "columns-not-text"]
        if job.get("nxattr") == "dict":
            out += ["key-missing", "key-renamed", "ragged"]
    if fmt == "gdf":
        out += ["contiguity", "column-unknown", "columns-not-text"]
    if kind == "skater":
        out = ["score-early", "score-length", "find-cut", "find-cut"]
        if k > 1:
            out += ["quorum", "quorum", "quorum"]
    return out


def spoil(rng, job):
    """An invalid variant of a request; None if the chosen one makes no sense."""
    job = json.loads(json.dumps(job))
    if "names" in job and isinstance(job["names"][0], list):
        job["names"] = [tuple(x) for x in job["names"]]
    s = rng.choice(spoils(job))
    nb, n = job["nb"], len(job["nb"])
    k = len(gen.components(nb))
    job["bad"] = s
    if s == "p-high":
        job["p"] = n + 1
    elif s == "p-high2":
        job["p"] = n + rng.randint(2, 9)
    elif s == "p-zero":
        job["p"] = 0
    elif s == "p-neg":
        job["p"] = -rng.randint(1, 3)
    elif s == "p-low":
        job["p"] = rng.randint(1, k - 1)
        job.pop("start", None) if rng.random() < 0.5 else None
    elif s == "p-kind":
        job["badp"] = rng.choice([2.5, 1.0, "2", None])
        job["malformed"] = True
    elif s.startswith("start"):
        lab = gen.rand_start(rng, nb, job["p"])
        if s == "start-count":
            q = rng.choice([x for x in range(k, n + 1) if x != job["p"]] or [0])
            if q == 0:
                return None
            lab = gen.rand_start(rng, nb, q)
        elif s == "start-split":
            for _ in range(30):
                names = list(range(job["p"]))
                lab = names + [rng.choice(names) for _ in range(n - len(names))]
                rng.shuffle(lab)
                if any(not gen.is_conn(nb, [a for a in range(n) if lab[a] == r]) for r in set(lab)):
                    break
            else:
                return None
        elif s == "start-joined":       # regions of several components share a label
            if k < 2 or job["p"] <= k:
                return None
            lab = gen.rand_start(rng, nb, job["p"])
            comps = gen.components(nb)
            a, b = comps[0], comps[1]
            x, y = lab[a[0]], lab[b[0]]
            lab = [x if v == y else v for v in lab]
            job["p"] = len(set(lab))
        elif s == "start-short":
            if n < 2:
                return None
            lab = lab[:-1]
            if len(set(lab)) != job["p"]:
                return None
        else:
            lab = lab + [lab[0]]
        job["start"] = lab
        if s in ("start-short", "start-long") and job["fmt"] in ("nx", "dict"):
            if s == "start-long":
                return None
    elif s == "strategy":
        job["spoil"], job["badvalue"] = s, rng.choice(["none", "str", "cls"])
        job["malformed"] = job["renew"] = True
    elif s == "cooling":
        job["badcool"] = rng.choice([0, 1, -0.5, 1.5, 2])
        job["malformed"] = True
    elif s == "par":
        key, vals = rng.choice(BADPAR[job["est"]])
        job["badpar"] = {key: rng.choice(vals)}
        job["malformed"] = job["renew"] = True
    elif s == "thr":
        m = len(job["thr"])
        job["thr"] = rec_exact.rand_thr(rng, nb, job["ext"], satisfiable=False,
                                        same=job.get("scalarthr"))
    elif s == "thr-one":
        if len(job["thr"]) < 2 or job.get("scalarthr"):
            return None
        bad = rec_exact.rand_thr(rng, nb, job["ext"], satisfiable=False)
        j = rng.randrange(len(bad))
        job["thr"][j] = bad[j]
    elif s == "max_it":
        job["max_it"] = rng.choice([0, -1, -7])
        job["malformed"] = True
    elif s in ("method", "solver", "metric", "contiguity"):
        job["spoil"] = s
        job["badvalue"] = rng.choice({
            "method": ["greedy", "", "Flo", None, 3],
            "solver": ["simplex", "", "cbc2", None, 7],
            "metric": ["no metric", "", "Manhattan2", 5],
            "contiguity": ["bishop", "", None, 4, "rook "]}[s])
        job["malformed"] = True
    elif s in ("key-missing", "key-added", "key-renamed", "ragged", "not-a-dict",
               "column-unknown", "column-partial", "columns-not-text"):
        which = ["attr"]
        if job["est"] in ("maxp", "maxpexact"):
            which.append("ext")
        if s.startswith("key") and job.get("start") and job["fmt"] == "dict":
            which += ["start", "start"]
        if s == "not-a-dict":
            which.append("map")
        if s == "column-unknown" and job.get("start") and job["fmt"] == "nx":
            which.append("start")
        job["spoil"], job["badvalue"] = s, rng.choice(which)
        if s == "ragged":
            if n < 2:
                return None
            key = job["badvalue"]
            job["values"] = "list"
        if s == "column-partial":
            if n < 3:
                return None
        if s == "columns-not-text":
            job["badcols"] = rng.choice(["num", "none", "nums"])
        if s.startswith("key") and n < 2:
            return None
        if job["badvalue"] == "start" and s.startswith("column") and job.get("nxstart") == "dict":
            return None
        job["malformed"] = True
    elif s == "neighbour-unknown":
        job["spoil"] = s
        job["malformed"] = True
    elif s == "quorum":
        job["quorum"] = min(len(c) for c in gen.components(nb)) + rng.randint(1, 3)
    elif s == "score-early":
        job.update(spoil="score", badvalue={}, malformed=True, renew=True, call=True)
    elif s == "score-length":
        if n < 2:
            return None
        job.update(spoil="score", badvalue={"labels": "short"}, malformed=True, call=True)
    elif s == "find-cut":
        job.update(spoil="find-cut", malformed=True, call=True, badvalue=rng.choice(
            [{"labels": "all"}, {"target_label": 0}]))
    return job


# --------------------------------------------------------------------------
# recording

def arrays_in(bad, n):
    out = {}
    for k, v in (bad or {}).items():
        out[k] = np.zeros(max(1, n - 1), dtype=int) if v == "short" \
            else np.zeros(n, dtype=int) if v == "all" else v
    return out


def event_of(job, o, kind, res, est, key="", changed=(), aborted=False):
    lab = api.labels_of(est) if est is not None else None
    ints = int_labels(lab) if lab is not None else None
    if lab is not None and ints is None:
        ints = [-98]
    text = "{} {}{} {}".format(job["est"], job["fmt"], " " + job["bad"] if job.get("bad") else "",
                               clean(res) if kind == "error" else "")
    # exact solutions are compared by their worth: solvers may choose among equally good ones
    worth = kind == "ok" and job["est"] in ("pexact", "maxpexact") and ints \
        and not job.get("malformed") and len(ints) == len(job["nb"])
    order = sorted(range(len(job["nb"])), key=lambda a: job["names"][a]) \
        if job["fmt"] == "dict" else api.positions(job)
    return dict(attr=[job["attr"][a] for a in order] if worth else [],
                metric=job["metric"] if worth else "", est=o, what="call" if job.get("call") else WHAT[job["est"]],
                nb=gen.tla_map(job["nb"]), p=job.get("p", 0), start=job.get("start") or [],
                ext=job.get("ext", []), thr=job.get("thr", []), quorum=job.get("quorum", 0),
                malformed=bool(job.get("malformed")), aborted=bool(aborted), key=key, kind=kind,
                labels=ints or [], changed=list(changed), text=text[:200])


def fit_event(job, est, o, key="", held=None, cons=None, target=None):
    """One fit; returns (event, estimator, raw labels)."""
    if target is None and job.get("startfrom") is not None and "start" in job:
        pass
    box = {}
    names = job.get("names")
    if names and isinstance(names[0], list):
        job = dict(job, names=[tuple(x) for x in names])
    if job.get("spoil") in ("find-cut", "score"):
        job = dict(job, badvalue=arrays_in(job["badvalue"], len(job["nb"])))
    ls = getattr(est, "local_search", None)
    rule = getattr(ls, "allow_move_strategy", None)
    try:
        args = api.arguments(job)
    except Exception as e:
        raise RuntimeError("harness: {} {}".format(type(e).__name__, e))
    if job.get("reuse") is not None:
        args["start"] = job["reuse"]
    before = {k: api.snapshot(v) for k, v in args.items()}
    obj = None
    before_obj = None
    if (job["est"] in api.HEUR or job["est"] == "maxp") and job.get("spoil") != "metric":
        obj = api.objective_of(job)
        before_obj = {k: id(v) for k, v in vars(obj).items()}
    held_before = [(h, api.snapshot(h)) for h in (held or [])]

    def run():
        e = est
        if job.get("renew"):
            e = build(cons, spoil=job.get("spoil"), badvalue=job.get("badvalue"),
                      badpar=job.get("badpar", {}))
        box["est"] = e
        return api.call(e, job, args, obj=obj)

    kind, res = api.guarded(job, run)
    changed = [k for k, v in args.items() if api.snapshot(v) != before[k]]
    changed += ["earlier labels" for h, s in held_before if api.snapshot(h) != s][:1]
    if obj is not None and {k: id(v) for k, v in vars(obj).items()} != before_obj:
        changed.append("objective")
    if ls is not None and getattr(est, "local_search", None) is ls \
            and getattr(ls, "allow_move_strategy", None) is not rule:
        changed.append("move rule of the local search")
    e = box.get("est") if job.get("renew") else est
    return event_of(job, o, kind, res, e, key, changed,
                    aborted=kind == "error" and str(res).startswith("Aborted")), e


def history_case(job):
    """
    Recorder: a history on one object (and its local search); with "same" each
    fit is repeated on a new object with equal random numbers.
    """
    cons, mode = job["cons"], job["mode"]
    main = build(cons)
    objects = {"main": main}
    if cons.get("ls"):
        objects["ls"] = main.local_search
    number = {"main": 1, "ls": 2}
    total = 2
    events, held = [], []
    for k, step in enumerate(job["steps"]):
        t = step.get("target", "main")
        est = objects[t]
        tcons = cons if t == "main" else dict(est=cons["ls"], par=cons.get("lspar", {}),
                                              seed=cons["seed"])
        step = dict(step)
        if step.get("startfrom"):
            last = api.labels_of(est)
            ints = int_labels(last) if last is not None else None
            if ints and len(ints) == len(step["nb"]) and step["fmt"] in ("sparse", "fit"):
                inv = {a: i for i, a in enumerate(step["order"])}
                step["start"] = [ints[inv[a]] for a in range(len(ints))]
                step["reuse"] = last
        seed = step.get("rnd", k)
        keyed = mode in ("same", "all") and not step.get("abort")
        if mode == "same":
            random.seed(seed)
            np.random.seed(seed % 2 ** 31)
        o = number[t]
        if step.get("renew"):
            total += 1
            o = total
        ev, _ = fit_event(step, est, o, key="{}".format(k) if keyed else "", held=held, cons=tcons)
        if ev["kind"] == "timeout" or ev["kind"] == "slow":
            if step.get("mayrun", True) or ev["kind"] == "slow":
                break
        events.append(ev)
        lab = api.labels_of(est)
        if lab is not None and mode == "args" and not any(h is lab for h in held):
            held.append(lab)
        if mode == "same" and keyed:
            fresh = build(tcons)
            random.seed(seed)
            np.random.seed(seed % 2 ** 31)
            total += 1
            ev2, _ = fit_event(step, fresh, total, key="{}".format(k), cons=tcons)
            if ev2["kind"] in ("timeout", "slow"):
                events.pop()
                break
            events.append(ev2)
    if mode == "args":
        for ev, step in zip(events, job["steps"]):
            ev["text"] += " changed " + clean(ev["changed"]) if ev["changed"] else ""
            if step.get("frozen") and ev["kind"] == "error" and not ev["aborted"] \
                    and not step.get("startfrom"):
                fresh = build(dict(cons) if step.get("target", "main") == "main" else
                              dict(est=cons["ls"], par=cons.get("lspar", {}), seed=cons["seed"]))
                ev2, _ = fit_event(dict(step, frozen=False), fresh, 1, cons=cons)
                if ev2["kind"] == "ok":
                    ev["changed"].append("written to")
    return dict(mode=mode, objects=total, events=events, what="")


def spoiled_histories(rng, kind, most, nmax=7):
    """Each way of spoiling a request, with each bad value, most times for each format."""
    seen, out, idle = {}, [], 0
    while idle < 400:
        idle += 1
        req = spoil(rng, rand_request(rng, kind, nmax, ties=kind != "sa"))
        if req is None:
            continue
        kindof = repr([req["bad"], req["fmt"]] + [req.get(k) for k in (
            "badvalue", "badp", "badpar", "badcool", "badcols")] + [
                req.get("max_it") if req["bad"] == "max_it" else 0])
        if seen.get(kindof, 0) >= most:
            continue
        seen[kindof] = seen.get(kindof, 0) + 1
        idle = 0
        cons = rand_cons(rng, kind, nmax)
        if cons.get("obj") and kind == "skater":
            req["obj"] = cons["obj"]
        req.update(mayrun=kind in ("sa", "maxp"), target="main", rnd=rng.randrange(10 ** 6))
        if kind == "sa" or cons.get("ls") in ("sa", "rtabu"):
            req["cpu"] = 4
        out.append(dict(cons=cons, mode="refuse", steps=[req]))
    return out


def rand_history(rng, kind, mode, length, nmax=7, bad=0.4):
    cons = rand_cons(rng, kind, nmax)
    steps = []
    while len(steps) < length:
        t = "main"
        k = kind
        if cons.get("ls") and rng.random() < 0.35:
            t, k = "ls", cons["ls"]
        if steps and rng.random() < 0.35 and any(s.get("target", "main") == t for s in steps):
            # the same map again
            step = json.loads(json.dumps(rng.choice(
                [s for s in steps if s.get("target", "main") == t])))
            for key in ("bad", "spoil", "badvalue", "badpar", "malformed", "renew", "call", "badp",
                        "badcool", "abort", "startfrom"):
                if key in step:
                    step = None
                    break
            if step is None:
                continue
            if rng.random() < 0.6:
                step = vary(rng, step, kind not in ("sa",) and cons.get("ls") != "sa")
            if k in api.HEUR and step["fmt"] in ("sparse", "fit") and rng.random() < 0.5:
                step["startfrom"] = True
                step["p"] = step["p"]
        else:
            step = rand_request(rng, k, nmax, ties=kind not in ("sa",) and cons.get("ls") != "sa")
        if cons.get("obj") and k == "skater":
            step["obj"] = cons["obj"]
        if mode == "refuse" and rng.random() < bad or mode != "refuse" and rng.random() < bad / 2:
            step = spoil(rng, step)
            if step is None:
                continue
        elif k in api.HEUR and rng.random() < 0.15:
            step["abort"] = rng.choice([1, 2, 3, 5, 8])
        if k in ("sa",) or cons.get("ls") in ("sa", "rtabu"):
            step["cpu"] = 4
        step["mayrun"] = k == "sa" or k == "maxp"
        step["target"] = t
        step["rnd"] = rng.randrange(10 ** 6)
        if mode == "args":
            step["frozen"] = rng.random() < 0.3 and not step.get("bad")
        steps.append(step)
    return dict(cons=cons, mode=mode, steps=steps)


def accepted_histories(rng, kind, times=2, nmax=7):
    """One fit each: every way to pass the attributes together with every kind of objective."""
    out = []
    if kind == "skater":
        return out
    for fmt in ("sparse", "fit", "w"):
        for flat in (True, False):
            for obj in ("pairwise", "centre"):
                for _ in range(times):
                    cons = rand_cons(rng, kind, nmax)
                    ties = kind != "sa" and cons.get("ls") != "sa"
                    for _ in range(60):
                        req = rand_request(rng, kind, nmax, fmt=fmt, nmin=2, ties=ties)
                        if req.get("obj", {}).get("kind", obj) == obj or not ties:
                            break
                    req["flatattr"] = flat
                    if flat:
                        req["attr"] = [row[:1] for row in req["attr"]]
                        if req.get("obj", {}).get("metric") == "cosine":
                            req["obj"]["metric"] = "manhattan"
                    step = dict(req, mayrun=kind in ("sa", "maxp"), target="main",
                                rnd=rng.randrange(10 ** 6))
                    if not ties or cons.get("ls") == "rtabu":
                        step["cpu"] = 4
                    out.append(dict(cons=cons, mode="refuse", steps=[step]))
    return out


def repeated_history(rng, kind, nmin=7, nmax=12):
    """The same search several times: whatever one of them leaves behind concerns the next."""
    cons = rand_cons(rng, kind, nmax)
    if kind == "rtabu" and rng.random() < 0.8:
        cons["par"].update(max_iterations=100, k1=rng.choice([0, 0, 0, 1]), k2=rng.choice([0, 0, 0, 1]))
    req = rand_request(rng, kind, nmax, start=True, nmin=nmin, ties=kind != "sa",
                       fmt=rng.choice(["sparse", "fit", "dict"]))
    steps = []
    for k in range(rng.randint(2, 4)):
        step = dict(req, mayrun=kind == "sa", target="main", rnd=rng.randrange(10 ** 6))
        if k and rng.random() < 0.3:
            step["start"] = gen.rand_start(rng, req["nb"], req["p"])
        if kind == "sa":
            step["cpu"] = 4
        steps.append(step)
    return dict(cons=cons, mode="same", steps=steps)


# --------------------------------------------------------------------------
# the same request in several processes

def answer(job):
    """One fit of a new object after some random numbers have been drawn."""
    for _ in range(job.get("drawn", 0)):
        random.random()
    np.random.seed(job.get("drawn", 0))
    est = build(job["cons"])
    ev, _ = fit_event(dict(job["step"], cpu=job.get("cpu", 10)), est, 1, key="answer")
    return ev


def twice(job):
    random.seed(job["cons"]["seed"] if isinstance(job["cons"]["seed"], int) else 1)
    out = [answer(job)]
    random.seed(job["before"])
    out.append(answer(dict(job, drawn=job["before"] % 7)))
    return out


def elsewhere(jobs, hashseed, scratch):
    """Answers of another interpreter process."""
    tag = "{}-{}".format(hashseed, id(jobs))
    src, dst = (os.path.join(scratch, "{}-{}.json".format(tag, x)) for x in ("in", "out"))
    with open(src, "w") as f:
        json.dump(jobs, f)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), src, dst],
                       env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       timeout=800)
    if p.returncode:
        raise RuntimeError("other process failed: " + p.stderr.decode()[-2000:])
    with open(dst) as f:
        return json.load(f)


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        todo = json.load(f)
    real = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    res = [answer(j) for j in todo]
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
