"""Recording the max-p heuristic and its move rule, judged by MaxPTrace.tla."""
import copy

import numpy as np

import algos
import gen
import rec_exact
from common import adj_of, clean, int_labels, outcome


def local_search(job):
    from region.p_regions.azp import AZP
    if job["algo"] is None:
        return None
    if job["algo"] == "azp" and job.get("plain"):
        return AZP(random_state=job["seed"])
    return algos.estimator(job)


def do_fit(job, obj=None, cls=None, est=None):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    cls = cls or MaxPRegionsHeu
    if est is None:
        est = cls(local_search=local_search(job), random_state=job["seed"])
    ext, thr = rec_exact.ext_args(job)
    attr = algos.attr_array(job)
    kw = {}
    if job.get("max_it"):
        kw["max_it"] = job["max_it"]
    est.fit_from_scipy_sparse_matrix(adj_of(job["nb"]), attr, ext, thr,
                                     objective_func=obj or algos.objective(job["obj"]), **kw)
    return est


def base(job):
    return dict(nb=gen.tla_map(job["nb"]), attr=job["attr"], obj=job["obj"], ext=job["ext"],
                thr=job["thr"], mode=job["mode"], mayrun=bool(job.get("mayrun")), labels=[],
                what=job["algo"] or "default")


def fit_case(job):
    kind, res = outcome(lambda: int_labels(do_fit(job).labels_), job.get("cpu", 30))
    res = res if kind == "ok" else clean(res)
    if kind != "ok":
        return dict(base(job), kind=kind, what="{} {}".format(job["algo"], res))
    return dict(base(job), kind=kind, labels=res or [])


def build_case(job):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    built, joined, odd = [], [], []
    zero = [False]
    spec = job["obj"]
    base_obj = algos.objective(spec)

    class Logging(type(base_obj)):
        def update(self, *args):
            d = super().update(*args)
            if abs(float(np.asarray(d).reshape(-1)[0])) < 1e-9:
                zero[0] = True
            return d

    obj = copy.copy(base_obj)
    obj.__class__ = Logging

    class Observed(MaxPRegionsHeu):
        def grow_regions(self, *args, **kw):
            res = super().grow_regions(*args, **kw)
            try:
                partition, over = res
                seq = [sorted(int(a) + 1 for a in r) for r in partition]
                built.append((partition, dict(seq=seq, rest=sorted(int(a) + 1 for a in over))))
            except Exception:
                odd.append(1)
            return res

        def assign_enclaves(self, partition, *args, **kw):
            which = [k for k, (p, b) in enumerate(built) if p is partition
                     or [sorted(int(a) + 1 for a in r) for r in p]
                     == [sorted(int(a) + 1 for a in r) for r in partition]]
            res = super().assign_enclaves(partition, *args, **kw)
            try:
                if not which:
                    odd.append(1)
                else:
                    # identical objects first
                    own = [k for k in which if built[k][0] is partition] or which
                    joined.append({"from": own[0] + 1, "regions": [
                        sorted(int(a) + 1 for a in r) for r in res]})
            except Exception:
                odd.append(1)
            return res

    kind, res = outcome(lambda: int_labels(do_fit(job, obj, Observed).labels_), job.get("cpu", 30))
    if kind != "ok":
        return dict(base(job), kind=kind, what="{} {}".format(job["algo"], clean(res)), built=[],
                    joined=[], azp=False, tied=True, notworse=False)
    seen = bool(built) and bool(joined) and not odd
    return dict(base(job), kind=kind, labels=res or [],
                built=[b for _, b in built] if seen else [], joined=joined if seen else [],
                azp=job["algo"] in (None, "azp"), tied=zero[0], notworse=job["algo"] != "sa")


def rule_case(job):
    from region.p_regions.azp_util import (AllowMoveAZPMaxPRegions, AllowMoveAZP,
                                           AllowMoveStrategy)

    class Yes(AllowMoveStrategy):
        def __call__(self, moving_area, new_region, labels):
            return True

    res = dict(base(job), complete=job["complete"], labels=job["labels"], moves=[])

    def run():
        ext, thr = rec_exact.ext_args(job)
        # the rule gets to see one component of a larger map
        idx = np.array(job["idx"])
        full = np.zeros((job["total"],) + ext.shape[1:], dtype=ext.dtype)
        full[idx] = ext
        attr = algos.attr_array(job)
        labels = np.array(job["labels"], dtype=job["ldtype"])
        make = AllowMoveAZP if job["inner"] == "azp" else Yes
        obj = algos.objective(job["obj"])
        for a, r in job["moves"]:
            inner = make()
            rule = AllowMoveAZPMaxPRegions(full, thr, inner)
            rule.start_new_component(labels, attr, obj, idx)
            yes = bool(rule(a, r, labels))
            would = True
            if job["inner"] == "azp":
                would = bool(float(np.asarray(obj.update(a, r, labels, attr)).reshape(-1)[0]) <= 0)
            res["moves"].append(dict(area=a + 1, region=r, allowed=yes, inner=would))

    kind, err = outcome(run)
    return dict(res, kind=kind, what=clean(err) if kind != "ok" else "")


def spread(rng, n):
    vals = [3 * (1 << min(k, 20)) + rng.randint(0, 1) for k in range(n)]
    rng.shuffle(vals)
    return [[x] for x in vals]


def nonneg(rng, n):
    while True:
        ext = rec_exact.rand_ext(rng, n)
        if min(x for row in ext for x in row) >= 0:
            return ext


def rand_fit(rng, mode, nmax, algo="any"):
    nb = gen.rich_map(rng, 3, nmax) if rng.random() < 0.6 else gen.rand_map(rng, 1, nmax)
    n = len(nb)
    if algo == "any":
        algo = rng.choice([None, None, "azp", "sa", "tabu", "rtabu"])
    obj, attr = algos.rand_obj(rng, n)
    job = dict(mode=mode, nb=[sorted(s) for s in nb], obj=obj, attr=attr, algo=algo,
               attrdtype=rng.choice(["int", "float"]), seed=rng.randrange(10 ** 6),
               par=algos.rand_par(rng, algo) if algo else {}, plain=rng.random() < 0.5)
    if algo == "sa" or (mode == "build" and rng.random() < 0.5):
        job.update(obj=dict(obj, kind="pairwise", metric="manhattan"), attr=spread(rng, n))
    if algo == "sa":
        job["mayrun"], job["cpu"] = True, 5
        job["par"]["max_iterations"] = rng.choice([1, 2, 3, 5])
    else:
        job["exp"] = algos.rand_exp(rng)
    job.update(ext=nonneg(rng, n), extdtype=rng.choice(["int", "float"]))
    m = len(job["ext"][0])
    job["scalarthr"] = m > 1 and rng.random() < 0.3
    job["flatext"] = rng.random() < 0.7
    thr = rec_exact.rand_thr(rng, nb, job["ext"], same=job["scalarthr"])
    if rng.random() < 0.7:      # more regions: lower thresholds
        thr = [max(0, t // rng.choice([2, 3])) for t in thr]
        if job["scalarthr"]:
            thr = [min(thr)] * m
    job["thr"] = thr
    # the local search is run for each pair of constructions: keep their number small
    job["max_it"] = rng.choice([1, 1, 2, 2, 3, 4] + ([None, 8] if algo in (None, "azp") and n < 9
                                                     else []))
    if algo in ("tabu", "rtabu"):
        job["max_it"] = min(job["max_it"] or 2, 2)
        job["mayrun"] = True            # whether it ends is decided elsewhere (C22)
    return job


def rand_rule(rng, complete):
    """A labelling in which every region reaches the thresholds, and its moves."""
    nb = gen.rich_map(rng, 3, 8) if rng.random() < 0.7 else gen.connected_map(rng, rng.randint(2, 6))
    if len(gen.components(nb)) > 1:
        nb = gen.connected_map(rng, 6)
    n = len(nb)
    lab = gen.rand_start(rng, nb, rng.randint(2, max(2, n // 2)))
    m = rng.choice([1, 1, 2, 3])
    neg = rng.random() < 0.6
    ext = [[rng.randint(-4, 8) if neg else rng.choice([0, 1, 2, 5]) for _ in range(m)]
           for _ in range(n)]
    sums = [min(sum(ext[a][k] for a in range(n) if lab[a] == r) for r in set(lab))
            for k in range(m)]
    thr = [s - rng.choice([0, 0, 1, 2, 3]) for s in sums]
    scalar = m > 1 and rng.random() < 0.3
    if scalar:
        thr = [min(thr)] * m
    obj, attr = algos.rand_obj(rng, n)
    moves = [(a, lab[b]) for a in range(n) for b in sorted(nb[a]) if lab[b] != lab[a]]
    # the rule is asked about moves that keep the donor connected
    moves = [(a, r) for a, r in moves if gen.is_conn(nb, [x for x in range(n) if lab[x] == lab[a]
                                                          and x != a])]
    total = n + rng.randint(0, 3)
    return dict(mode="rule", nb=[sorted(s) for s in nb], labels=lab, ext=ext, thr=thr, obj=obj,
                attr=attr, attrdtype="int", ldtype=rng.choice(["int", "int32", "float"]),
                extdtype=rng.choice(["int", "float"]), scalarthr=scalar,
                flatext=rng.random() < 0.5, algo=None, inner=rng.choice(["yes", "azp"]),
                idx=sorted(rng.sample(range(total), n)), total=total, seed=0,
                exp=algos.rand_exp(rng),
                complete=complete, moves=moves[:20])


def instance_jobs(ctx, mode, quick, algos_=(None, "azp", "tabu", "rtabu", "sa")):
    """Requests for the instances of MC_MaxP."""
    rng = ctx.rng("instances")
    jobs = []
    for n, v, x, t in ((3, 1, 2, 3), (4, 1, 1, 2), (4, 99, 1, 2)):
        for inst in ctx.instances(rng, ctx.n(quick // 3, 4000), "maxp", n, v, x, t):
            algo = rng.choice(algos_)
            job = dict(inst, mode=mode, algo=algo, seed=rng.randrange(10 ** 6),
                       obj=dict(kind="pairwise", metric="manhattan", centre="mean", red="sum"),
                       attrdtype=rng.choice(["int", "float"]),
                       par=algos.rand_par(rng, algo) if algo else {}, plain=rng.random() < 0.5,
                       extdtype=rng.choice(["int", "float"]), scalarthr=False,
                       flatext=rng.random() < 0.7, max_it=rng.choice([1, 2, 3]))
            if algo in ("tabu", "rtabu", "sa"):
                job["mayrun"], job["max_it"] = True, min(2, job["max_it"])
            if algo == "sa":
                job["cpu"] = 5
                job["par"]["max_iterations"] = rng.choice([1, 2, 3, 5])
            jobs.append(job)
    return jobs
