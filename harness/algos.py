"""Constructing and fitting the p-regions heuristics from JSON-able jobs."""
import math
import random

import numpy as np

from common import adj_of, outcome, int_labels, clean
import gen

METRICS = ["manhattan", "cityblock", "l1", "euclidean", "l2", "cosine"]
FUNCS = {"mean": np.mean, "median": np.median, "max": np.max, "min": np.min, "sum": np.sum}


def metric_function(name):
    """Metrics that are passed as functions in the style of scikit-learn."""
    from scipy.spatial.distance import cdist
    return {"sqeuclidean": lambda x, y: cdist(x, y, "sqeuclidean"),
            "chebyshev": lambda x, y: cdist(x, y, "chebyshev"),
            "first": lambda x, y: cdist(x[:, :1], y[:, :1], "cityblock"),
            "last": lambda x, y: cdist(x[:, -1:], y[:, -1:], "cityblock")}.get(name, name)


def objective(spec):
    from region.objective_function import ObjectiveFunctionPairwise, ObjectiveFunctionCenter
    metric = metric_function(spec["metric"])
    if spec["kind"] == "pairwise":
        return ObjectiveFunctionPairwise(metric)
    return ObjectiveFunctionCenter(metric, FUNCS[spec["centre"]], FUNCS[spec["red"]])


def estimator(job):
    from region.p_regions.azp import (AZP, AZPSimulatedAnnealing, AZPBasicTabu,
                                      AZPReactiveTabu)
    k, s = dict(job.get("par", {})), job.get("seed", 0)
    return {"azp": AZP, "sa": AZPSimulatedAnnealing, "tabu": AZPBasicTabu,
            "rtabu": AZPReactiveTabu}[job["algo"]](random_state=s, **k)


def rand_par(rng, algo, cold=False, n=10):
    if algo == "sa":
        par = {"init_temperature": rng.choice([1e-3, 0.5, 1, 5, 50]) if not cold else 1e-6,
               "max_iterations": rng.choice([1, 2, 3, 5, math.inf])}
        for key, vals in (("sa_moves_term", [1, 2, 5, 10]),
                          ("nonmoving_steps_before_stop", [1, 2, 3]),
                          ("repetitions_before_termination", [1, 2, 5])):
            if rng.random() < 0.6:
                par[key] = rng.choice(vals)
        return par
    if algo == "tabu":
        par = {}
        if rng.random() < 0.8:
            par["tabu_length"] = rng.choice([None, 0, 1, 2, 3, 5, 10, 50])
        if rng.random() < 0.7:
            par["repetitions_before_termination"] = rng.choice([1, 1, 2, 3, 5])
        return par
    if algo == "rtabu":
        return {"max_iterations": rng.choice([1, 2, 3, 5, 10, 30, 100, 100]),
                "k1": rng.choice([0, 0, 1, 2]), "k2": rng.choice([0, 0, 1, 2])}
    return {}


def rand_obj(rng, n, kinds=None):
    """An objective and an attribute table with exact integer values."""
    kind = rng.choice(kinds or ["pairwise", "pairwise", "centre"])
    if kind == "pairwise":
        metric = rng.choice(METRICS + ["sqeuclidean", "chebyshev", "manhattan", "manhattan"])
        return dict(kind=kind, metric=metric, centre="mean", red="sum"), \
            gen.attr_for_metric(rng, n, metric, outliers=True)
    # centre: the values stay integers if the attributes are multiples of f
    centre = rng.choice(["mean", "median", "max", "min"])
    metric = rng.choice(["manhattan", "cityblock", "chebyshev", "manhattan", "sqeuclidean"])
    f = {"mean": lcm(n), "median": 2}.get(centre, 1)
    red = "sum"
    if n <= 6 and metric != "sqeuclidean":
        red = rng.choice(["sum", "sum", "mean", "max", "min"])
        if red == "mean":
            f *= lcm(n) ** 2
    if metric == "sqeuclidean" and f > 60:
        f = 1
        centre = rng.choice(["max", "min"])
    attr = gen.rand_attr(rng, n, style=rng.choice(["bits", "small", "digits", "digits", "equal"]))
    return dict(kind=kind, metric=metric, centre=centre, red=red), \
        [[f * v for v in row] for row in attr]


def lcm(n):
    r = 1
    for k in range(2, n + 1):
        r = r * k // math.gcd(r, k)
    return r


def rand_job(rng, algo, nmin=1, nmax=10, start=None, kinds=None, ties=False, cold=False,
             odd=True, rich=0.6):
    """A satisfiable request."""
    isrich = nmax >= 5 and rng.random() < rich
    nb = gen.rich_map(rng, max(5, nmin), nmax) if isrich else gen.rand_map(rng, nmin, nmax)
    n = len(nb)
    mayrun = False
    if algo == "sa" or ties == "never":
        obj, attr = rand_obj(rng, n, kinds)
        if obj["kind"] == "pairwise":
            # no ties: they let annealing go on for a long time
            obj = dict(obj, metric="manhattan")
            attr = [[(1 << min(i, 20)) * 3 + rng.randint(0, 1)] for i in range(n)]
            rng.shuffle(attr)
        else:
            mayrun = True
    elif ties:
        obj, attr = rand_obj(rng, n, kinds)
        attr = [list(attr[0]) for _ in range(n)]
    else:
        obj, attr = rand_obj(rng, n, kinds)
    p = gen.rich_p(rng, nb) if isrich else gen.rand_p(rng, nb)
    job = dict(algo=algo, nb=[sorted(s) for s in nb],
               p=p, obj=obj, attr=attr, seed=rng.randrange(10 ** 6),
               par=rand_par(rng, algo, cold, n), start=None)
    if start is True or (start is None and rng.random() < 0.5):
        job["start"] = gen.rand_start(rng, nb, p, odd_labels=odd)
        job["startdtype"] = rng.choice(["int", "int32", "float"])
    if mayrun and algo == "sa":
        job["mayrun"], job["cpu"] = True, 2
    if algo == "sa":
        job["cool"] = rng.choice([0.1, 0.5, 0.85])
    job["attrdtype"] = rng.choice(["int", "float"])
    if algo != "sa":
        job["exp"] = rand_exp(rng)
    return job


def big_job(rng, algo, start=None):
    """A request about a large map."""
    nb = gen.big_map(rng)
    n, k = len(nb), len(gen.components(nb))
    few = algo == "azp" and rng.random() < 0.3
    p = max(k, rng.randint(2, 5) if few else rng.randint(7 * n // 8, n - 2))
    job = dict(algo=algo, nb=[sorted(s) for s in nb], p=p, seed=rng.randrange(10 ** 6), start=None,
               obj=dict(kind="pairwise", metric="manhattan", centre="mean", red="sum"),
               attr=[[rng.randint(0, 9 if algo != "sa" else 9999)] for _ in range(n)],
               par={"sa": {"max_iterations": 1, "init_temperature": 1e-6},
                    "tabu": {"repetitions_before_termination": 1, "tabu_length": 5},
                    "rtabu": {"max_iterations": 3, "k1": 1, "k2": 1}}.get(algo, {}), cpu=240)
    if start or start is None and rng.random() < 0.5:
        job["start"] = gen.rand_start(rng, nb, p, odd_labels=False)
    if algo == "sa":
        job.update(cool=0.1, mayrun=True, cpu=20)
    return job


def rounding_job(rng, algo, nmax=12):
    """A request whose objective values are subject to rounding; many are equal in truth."""
    job = rand_job(rng, algo, 4, nmax, odd=False, rich=0.8)
    n = len(job["nb"])
    kind = rng.choice(["pairwise", "pairwise", "centre"])
    metric = rng.choice(["cosine", "cosine", "euclidean", "l2", "manhattan", "sqeuclidean"])
    job["obj"] = dict(kind=kind, metric=metric, centre=rng.choice(["mean", "mean", "median"]),
                      red=rng.choice(["sum", "sum", "mean", "max"]))
    rows = [[rng.randint(1, 9) for _ in range(rng.randint(2, 4) if metric == "cosine" else
                                              rng.randint(1, 3))]]
    while len(rows) < rng.choice([1, 2, 3]):
        rows.append([rng.randint(1, 9) for _ in rows[0]])
    job["attr"] = [list(rng.choice(rows)) for _ in range(n)]
    if metric == "cosine" and rng.random() < 0.5:       # multiples: distance 0, but for rounding
        job["attr"] = [[rng.randint(1, 9) * v for v in row] for row in job["attr"]]
    job["div"] = rng.choice([3, 7, 10, 49])
    job.pop("exp", None)
    return job


def instance_job(rng, algo, inst, start=None, cold=False):
    """A request for an instance of the exhaustively explored machines."""
    n = len(inst["nb"])
    job = dict(inst, algo=algo, p=len(set(inst["start"])), seed=rng.randrange(10 ** 6),
               obj=dict(kind="pairwise", metric="manhattan", centre="mean", red="sum"),
               par=rand_par(rng, algo, cold, n), attrdtype=rng.choice(["int", "float"]))
    if not (start or start is None and rng.random() < 0.7):
        job["start"] = None
    if algo == "sa":
        job["cool"] = rng.choice([0.1, 0.5, 0.85])
    elif rng.random() < 0.3:
        job["exp"] = rand_exp(rng)
    return job


def instance_jobs(ctx, algos, quick, start=None, cold=False, **extra):
    """Requests for the instances of MC_AZP, MC_BasicTabu and MC_ReactiveTabu."""
    rng = ctx.rng("instances")
    jobs = []
    for algo in algos:
        spread = 99                       # different values: annealing comes to an end
        for n, v in ((3, spread), (4, spread)) if algo == "sa" else ((3, 3), (4, 1), (4, spread)):
            most = quick // 3 if ctx.quick else None if algo != "sa" else 3000
            for inst in ctx.instances(rng, most, "search", n, v):
                jobs.append(dict(instance_job(rng, algo, inst, start, cold), **extra))
    return jobs


def rand_exp(rng, exps=(-30, -20, -10, -3, 6)):
    """The exponent of the power of two that the attributes are multiplied by.

    Each decision depends on comparisons of objective values only, and multiplying by a
    power of two is exact in floating point: the decisions are those for the integers.
    """
    return rng.choice((0,) * len(exps) + exps)


def attr_array(job, ids=False):
    """The attribute table, scaled by 2 ** job["exp"]; ids: with a column of row numbers."""
    e = job.get("exp", 0)
    res = np.array(job["attr"], dtype="float" if e else job.get("attrdtype", "int"))
    if e:
        res = res * 2.0 ** e
    if job.get("div"):              # values that are rounded
        res = res / job["div"]
    if ids:
        res = np.column_stack([res, np.arange(len(res), dtype=res.dtype)])
    return res


def unit(job):
    """What the objective value 1 of the integer table is with the scaled attributes."""
    return 2.0 ** (job.get("exp", 0) * {"cosine": 0, "sqeuclidean": 2}.get(job["obj"]["metric"], 1))


def fit(job, est=None, obj=None, attr=None):
    """Fit; returns the estimator."""
    est = est or estimator(job)
    nb = job["nb"]
    attr = attr_array(job) if attr is None else attr
    if job.get("flat") and attr.shape[1] == 1:
        attr = attr.reshape(-1)
    kw = {}
    if job.get("start") is not None:
        kw["initial_labels"] = np.array(job["start"], dtype=job.get("startdtype", "int"))
        if job.get("labelunit"):
            kw["initial_labels"] = kw["initial_labels"] * job["labelunit"]
    if job["algo"] == "sa":
        kw["cooling_factor"] = job.get("cool", 0.85)
    est.fit_from_scipy_sparse_matrix(
        adj_of(nb), attr, job["p"], objective_func=obj or objective(job["obj"]), **kw)
    return est


def fit_case(job):
    """Recorder: one fit, judged by Fit.tla."""
    if job.get("start") and job["seed"] % 4 == 0:
        # labels may be any numbers
        job = dict(job, startdtype="float", labelunit=[0.25, 2.0 ** 33][job["seed"] % 8 // 4])
    kind, res = outcome(lambda: int_labels(np.asarray(fit(job).labels_) /
                                           job.get("labelunit", 1)), cpu=job.get("cpu", 20))
    what = "{} {}".format(job["algo"], clean(res) if kind != "ok" else "")
    return dict(nb=gen.tla_map(job["nb"]), p=job["p"], start=job.get("start") or [],
                kind=kind, labels=(res or []) if kind == "ok" else [], obj=job["obj"],
                attr=job["attr"], mode=job.get("mode", "feasible"),
                mayrun=bool(job.get("mayrun")), what=what)
