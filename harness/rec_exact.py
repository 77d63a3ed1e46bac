"""Recording fits of the exact algorithms, judged by Exact.tla."""
import os
import tempfile

import numpy as np

import algos
import gen
from common import adj_of, clean, int_labels, outcome_wall

METRICS = ["manhattan", "cityblock", "l1", "euclidean", "euclidean", "l2", "cosine",
           "sqeuclidean", "chebyshev"]


def rand_ext(rng, n, cols=None):
    """Spatially extensive attributes and a threshold for each of them."""
    m = cols or rng.choice([1, 1, 1, 2, 3])
    style = rng.choice(["ones", "digits", "digits", "zeros", "wide", "mixed"])
    f = {"ones": lambda: 1, "digits": lambda: rng.randint(1, 9),
         "zeros": lambda: rng.choice([0, 0, 1, 2, 5]), "wide": lambda: rng.randint(1, 100),
         "mixed": lambda: rng.choice([-2, -1, 1, 3, 5, 8])}[style]
    return [[f() for _ in range(m)] for _ in range(n)]


def rand_thr(rng, nb, ext, satisfiable=True, same=False):
    """Thresholds, one per extensive attribute (a single number may stand for all)."""
    m = len(ext[0])
    comps = gen.components(nb)
    thr = []
    for k in range(m):
        top = min(sum(ext[a][k] for a in c) for c in comps)
        r = rng.random()
        if not satisfiable:
            thr.append(top + rng.randint(1, 5))
        elif r < 0.15:
            thr.append(top)
        elif r < 0.3:
            thr.append(max(1, top // 2))
        else:
            thr.append(rng.randint(min(0, top), top))
    if same:
        thr = [min(thr) if satisfiable else max(thr)] * m
    return thr


OUTLIER = 10 ** 8       # stands for a much larger value


def rand_magnitude(rng, job):
    """
    Spatially extensive attributes of any magnitude, with outliers, and such that sums only just
    reach or miss the threshold.
    """
    r = rng.random()
    low = min(x for row in job["ext"] for x in row)
    if r < 0.2:
        job["extscale"] = rng.choice([[2, -30], [2, -45], [2, 25], [10, -3], [10, -6], [10, -7],
                                      [10, -9], [10, 6], [10, 9]])
    elif r < 0.35:
        # all sums stay below 2 ** 31
        big = rng.choice([10 ** 5, 10 ** 6, 10 ** 7, 3 * 10 ** 7])
        most = max([abs(x) for row in job["ext"] for x in row] + [abs(t) for t in job["thr"]] + [1])
        big = min(big, 2 ** 30 // (most * (len(job["nb"]) + 1)))
        job["ext"] = [[x * big + (rng.choice([-1, 0, 0, 1]) if x or low < 0 else 0) for x in row]
                      for row in job["ext"]]
        job["thr"] = [t * big + rng.choice([-1, 0, 0, 1]) for t in job["thr"]]
        if job.get("scalarthr"):
            job["thr"] = [job["thr"][0]] * len(job["thr"])
        if rng.random() < 0.5:
            job["extscale"] = rng.choice([[2, -30], [2, 15], [2, -20]])
    elif r < 0.42:
        for a in rng.sample(range(len(job["ext"])), min(len(job["ext"]), rng.randint(1, 2))):
            job["ext"][a][rng.randrange(len(job["ext"][a]))] = OUTLIER
        job["outliers"] = True
    return job


def ext_args(job):
    ext = np.array(job["ext"], dtype=job.get("extdtype", "int"))
    thr = job["thr"]
    base, exp = job.get("extscale", [1, 0])
    if exp:
        ext, thr = ext * float(base) ** exp, [t * float(base) ** exp for t in thr]
    if job.get("outliers"):
        ext = np.where(np.array(job["ext"]) == OUTLIER, 10.0 ** 15, ext)
    if ext.shape[1] == 1 and job.get("flatext", True):
        ext = ext.reshape(-1)
        t = thr[0] + job.get("thrplus", 0)
    elif job.get("scalarthr"):
        t = thr[0] + job.get("thrplus", 0)
    else:
        t = np.array(thr)
    return ext, t


def exact_case(job):
    from region.p_regions.exact import PRegionsExact
    from region.max_p_regions.exact import MaxPRegionsExact
    nb = job["nb"]
    attr = algos.attr_array(job)
    if job.get("flat") and attr.shape[1] == 1:
        attr = attr.reshape(-1)
    metric = algos.metric_function(job["metric"])

    def run():
        if job["p"]:
            est = PRegionsExact()
            est.fit_from_scipy_sparse_matrix(adj_of(nb), attr, job["p"], method=job["method"],
                                             metric=metric)
        else:
            est = MaxPRegionsExact()
            ext, thr = ext_args(job)
            est.fit_from_scipy_sparse_matrix(adj_of(nb), attr, ext, thr, metric=metric)
        return int_labels(est.labels_)

    home = os.getcwd()
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as d:
        os.chdir(d)
        try:
            kind, res = outcome_wall(run, job.get("wall", 20))
        finally:
            os.chdir(home)
    return dict(nb=gen.tla_map(nb), attr=job["attr"], metric=job["metric"], p=job["p"],
                ext=job.get("ext", []), thr=job.get("thr", []), kind=kind,
                labels=(res or []) if kind == "ok" else [],
                what="{} {}".format(job.get("method", "maxp"), clean(res) if kind == "error" else ""))


def torn(rng, nmax):
    """
    Max-p: a tree of two homogeneous parts; the more regions, the more of them may have to
    reach across, at a high price.
    """
    n = rng.randint(min(4, nmax), nmax)
    nb = gen.from_edges(n, [(i, i + 1) for i in range(n - 1)]) if rng.random() < 0.5 else \
        gen.rand_tree(rng, n)
    nb = gen.shuffle(rng, nb)
    inner = [x for x in range(n) if len(nb[x]) > 1] or [0]
    a = rng.choice(inner)
    b = rng.choice(sorted(nb[a], key=lambda y: -len(nb[y]))[:2])
    part, todo = {a}, [a]
    while todo:
        for y in nb[todo.pop()]:
            if y != b and y not in part:
                part.add(y)
                todo.append(y)
    cut = len(part) * (n - len(part))
    # the sum of all dissimilarities, and that of two areas, close to, above or below a power of ten
    tens = 10 ** rng.choice([0, 1, 2, 3])
    high = rng.choice([9, 20, 33, 100, 200, 310, 1000, rng.randint(1, 99),
                       10 * tens // cut, 10 * tens // cut, 10 * tens // cut + 1,
                       tens + rng.randint(1, 1 + tens), tens + rng.randint(1, 1 + tens),
                       tens + 1, tens + 1])
    noise = rng.choice([0, 0, 1])
    attr = [[rng.randint(0, noise) + (high if x in part else 0)] for x in range(n)]
    ext = [[rng.choice([1, 1, 1, 2])] for _ in range(n)]
    return dict(nb=[sorted(s) for s in nb], p=0, metric="manhattan", attr=attr, attrdtype="int",
                exp=algos.rand_exp(rng, (-30, 3, 10)), ext=ext, extdtype="int", scalarthr=False,
                flatext=rng.random() < 0.7, thr=[rng.choice([2, 2, 2, 3])])


def rand_exact(rng, what, nmin, nmax):
    if what == "maxp" and nmax > 3 and rng.random() < 0.35:
        return torn(rng, nmax)
    nb = gen.rand_map(rng, nmin, nmax)
    n = len(nb)
    metric = rng.choice(METRICS)
    job = dict(nb=[sorted(s) for s in nb], metric=metric, attr=gen.attr_for_metric(rng, n, metric),
               attrdtype=rng.choice(["int", "float"]))
    job["exp"] = algos.rand_exp(rng, (-40, -30, -10, 3, 10, 30))
    if len(job["attr"][0]) == 1:
        job["flat"] = rng.random() < 0.3
    if what == "maxp":
        job.update(p=0, ext=rand_ext(rng, n), extdtype=rng.choice(["int", "float"]))
        m = len(job["ext"][0])
        job["scalarthr"] = m > 1 and rng.random() < 0.3
        job["flatext"] = rng.random() < 0.7
        job["thr"] = rand_thr(rng, nb, job["ext"], same=job["scalarthr"])
    else:
        job.update(p=gen.rand_p(rng, nb), method=what)
    return job


def instance_jobs(ctx, what, wall):
    """Requests for all small instances, for each method."""
    rng = ctx.rng("instances")
    spaces = [("exact", 3, 3, 0, 0), ("exact", 4, 1, 0, 0)] if what != "maxp" else \
        [("maxp", 3, 1, 2, 3), ("maxp", 4, 1, 1, 2)]
    jobs = []
    for kind, n, v, x, t in spaces:
        for inst in ctx.instances(rng, ctx.n(60 if what != "maxp" else 400,
                                             700 if what != "maxp" else 6000), kind, n, v, x, t):
            job = dict(inst, metric="manhattan", attrdtype=rng.choice(["int", "float"]),
                       exp=algos.rand_exp(rng, (-40, -30, -10, 3, 10, 30)), flat=rng.random() < 0.3,
                       wall=wall)
            if what == "maxp":
                jobs.append(dict(job, p=0, extdtype="int", flatext=rng.random() < 0.5,
                                 scalarthr=False))
            else:
                jobs += [dict(job, method=m) for m in ("flow", "order", "tree")]
    return jobs
