"""C07: simulated annealing follows its acceptance, cooling and stopping rules."""
import math

import numpy as np

import algos
import common
import gen
import rec_walk
from common import outcome, clean, int_labels, Budget

LIMIT = 1500


def recorder(job):
    import region.p_regions.azp as azpmod
    import region.p_regions.azp_util as utilmod
    n = len(job["nb"])
    runs, cur = [], {"asked": None, "starts": None, "decisions": 0}

    def log(attr, labels, area, region):
        cur["asked"] = (int(attr[area, -1]), int(region))

    obj = rec_walk.logging_objective(job["obj"], log)
    cls = type(obj)
    plain_call = cls.__call__
    plain_update = cls.update

    def update(self, *a):
        cur["inside"] = True
        try:
            return plain_update(self, *a)
        finally:
            cur["inside"] = False

    def call(self, labels, attr):
        if cur["starts"] is not None and not cur.get("inside"):
            key = tuple(int(x) for x in attr[:, -1])
            cur["starts"].setdefault(key, [int(x) for x in labels])
        return plain_call(self, labels, attr)

    cls.update, cls.__call__ = update, call
    azp, strat = azpmod.AZP, utilmod.AllowMoveAZPSimulatedAnnealing
    names = [k for k in ("fit_from_scipy_sparse_matrix", "fit") if hasattr(azp, k)]
    fits = {k: getattr(azp, k) for k in names}
    decide = strat.__call__
    depth = [0]

    def logged(orig):
        def fit(self, adj, attr, n_regions, initial_labels=None, *a, **kw):
            if depth[0]:
                return orig(self, adj, attr, n_regions, initial_labels, *a, **kw)
            depth[0] += 1
            run = dict(ev=[], given=None if initial_labels is None
                       else int_labels(initial_labels))
            cur["starts"] = {}
            runs.append(run)
            try:
                res = orig(self, adj, attr, n_regions, initial_labels, *a, **kw)
                run["to"] = int_labels(self.labels_) or [-99]
                return res
            finally:
                depth[0] -= 1
                run["starts"] = cur["starts"]
                cur["starts"] = None
        return fit

    def decided(self, moving_area, new_region, labels):
        cur["decisions"] += 1
        if cur["decisions"] > LIMIT:
            raise Budget()
        cur["asked"] = None
        ok = decide(self, moving_area, new_region, labels)
        if runs and cur["asked"] is not None:
            runs[-1]["ev"].append([cur["asked"][0] + 1, cur["asked"][1], 1 if ok else 0])
        return ok

    attr = algos.attr_array(job, ids=True)
    try:
        for k in names:
            setattr(azp, k, logged(fits[k]))
        strat.__call__ = decided
        kind, res = outcome(lambda: algos.fit(job, obj=obj, attr=attr), cpu=10)
    finally:
        for k in names:
            setattr(azp, k, fits[k])
        strat.__call__ = decide
    cut = kind == "timeout"
    done = [r for r in runs if "to" in r]
    if kind == "ok" and not done:
        return []                                # not observable through these seams
    if cut:
        if not done:
            return []
        kind = "ok"
    for r in done:
        r["from"] = r["given"]
        if r["from"] is None:
            lab = [None] * n
            for ids, labels in r["starts"].items():
                for a, x in zip(ids, labels):
                    lab[a] = x
            if None in lab:
                return []
            r["from"] = lab
    par = job["par"]
    maxit = par.get("max_iterations", math.inf)
    first = done[0]["from"] if done else [0] * n
    return [dict(nb=gen.tla_map(job["nb"]), obj=job["obj"], attr=job["attr"],
                 start=first, known=bool(job.get("start")),
                 par=dict(maxit=0 if maxit == math.inf else maxit,
                          term=par.get("sa_moves_term", 10),
                          stop=par.get("nonmoving_steps_before_stop", 3),
                          reps=par.get("repetitions_before_termination", 5)),
                 runs=[{"from": r["from"], "ev": r["ev"], "to": r["to"]} for r in done],
                 final=(int_labels(res.labels_) or [-99]) if not cut and kind == "ok" else [-99],
                 scale=job.get("scale", 0), cold=job.get("cold", False),
                 hot=job.get("hot", False), cut=cut, kind=kind,
                 what=clean(res) if kind == "error" else "")]


RECORDERS = {"annealing": recorder, "frequencies": recorder}


def lifecycle_job(rng):
    job = algos.rand_job(rng, "sa", 3, rng.choice([5, 7, 9]), kinds=["pairwise"], rich=0.8)
    job["par"].update(init_temperature=rng.choice([0.5, 5, 50, 500, 1e-9, 1e12]))
    if rng.random() < 0.3:
        job["attr"] = [[rng.randint(0, 9)] for _ in job["nb"]]
    t = job["par"]["init_temperature"]
    job["cold"], job["hot"] = t == 1e-9, t == 1e12
    if job["hot"]:
        job["par"]["max_iterations"] = rng.choice([1, 2, 3])
    return job


def frequency_job(rng):
    nb = gen.rich_map(rng, 5, 8)
    p = gen.rich_p(rng, nb)
    job = dict(algo="sa", nb=[sorted(s) for s in nb], p=p,
               obj=dict(kind="pairwise", metric="manhattan", centre="mean", red="sum"),
               attr=[[4 * rng.randint(0, 4)] for _ in nb], seed=rng.randrange(10 ** 6),
               par=dict(init_temperature=8 / math.log(2), max_iterations=rng.choice([1, 2, 3]),
                        sa_moves_term=rng.choice([3, 10, 50]),
                        nonmoving_steps_before_stop=rng.choice([1, 2]),
                        repetitions_before_termination=rng.choice([1, 2])),
               start=gen.rand_start(rng, nb, p) if rng.random() < 0.5 else None,
               cool=0.5, scale=4)
    return job


def run(ctx):
    rng = ctx.rng("annealing")
    ctx.model("annealing life cycle", "MC_SimAnneal", workers=8)
    jobs = [lifecycle_job(rng) for _ in range(ctx.n(900, 8000))]
    recs = common.record(recorder, jobs)
    flat = [j for j, r in zip(jobs, recs) for _ in r]
    cases = [c for r in recs for c in r]
    ctx.count("AZP runs", sum(len(c["runs"]) for c in cases))
    ctx.count("decisions", sum(len(r["ev"]) for c in cases for r in c["runs"]))
    size = lambda c: 5 + sum(len(r["ev"]) for r in c["runs"])
    ctx.judge("annealing", "AnnealTrace", flat, cases, weight=size)
    for rep in range(ctx.n(1, 6)):
        jobs = [frequency_job(rng) for _ in range(ctx.n(500, 700))]
        recs = common.record(recorder, jobs)
        flat = [j for j, r in zip(jobs, recs) for _ in r]
        cases = [c for r in recs for c in r]
        ctx.count("decisions with frequencies", sum(len(r["ev"]) for c in cases for r in c["runs"]))
        ctx.judge("frequencies", "AnnealTrace", flat, cases, jvms=1)
