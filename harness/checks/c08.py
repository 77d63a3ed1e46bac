"""C08: random start solutions are feasible for every map and random outcome."""
import random

import numpy as np

import common
import gen
from common import adj_of, outcome, clean, int_labels


def recorder(job):
    from region.util import generate_initial_sol, distribute_regions_among_components
    random.seed(job["seed"])
    np.random.seed(job["seed"])
    base = dict(nb=gen.tla_map(job["nb"]), p=job["p"], out=[], comp=[], share=[], what="")
    if job.get("shares"):
        comp = np.array(job["comp"])
        kind, res = outcome(lambda: dict(distribute_regions_among_components(comp, job["p"])))
        if kind != "ok":
            return dict(base, kind=kind, what=clean(res))
        return dict(base, kind="shares", comp=job["comp"],
                    share=[[int(k), int(x)] for k, x in res.items()])
    kind, res = outcome(lambda: [int_labels(x) for x in
                                 generate_initial_sol(adj_of(job["nb"]), job["p"])])
    if kind != "ok":
        return dict(base, kind=kind, what=clean(res))
    return dict(base, kind="ok", out=[x if x is not None else [] for x in res])


RECORDERS = {"starts": recorder}


def run(ctx):
    rng = ctx.rng("starts")
    ctx.model("deliveries on all maps", "MC_StartSol", workers=8)
    jobs = []
    for _ in range(ctx.n(5000, 60000)):
        r = rng.random()
        if r < 0.4:
            nb = gen.rand_map(rng, 1, rng.choice([3, 6, 10]))
        elif r < 0.7:
            nb = gen.rand_map(rng, 4, 14, comps=rng.randint(2, 5))
        else:
            nb = gen.rich_map(rng, 5, 16)
        job = dict(nb=[sorted(s) for s in nb], p=gen.rand_p(rng, nb), seed=rng.randrange(10 ** 6))
        if rng.random() < 0.25:
            comp = [0] * len(nb)
            for k, c in enumerate(gen.components(nb)):
                for a in c:
                    comp[a] = k
            job.update(shares=True, comp=comp)
        jobs.append(job)
    for _ in range(ctx.n(24, 400)):
        nb = gen.big_map(rng)
        n, k = len(nb), len(gen.components(nb))
        jobs.append(dict(nb=[sorted(s) for s in nb], seed=rng.randrange(10 ** 6),
                         p=max(k, rng.choice([k, k + 3, n // 2, n - n // 9, n - 1, n]))))
    # all maps with few areas and all numbers of regions
    for n in (1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5):
        for inst in ctx.instances(rng, None, "start", n):
            jobs.append(dict(inst, seed=rng.randrange(10 ** 6)))
    cases = common.record(recorder, jobs)
    ctx.judge("starts", "StartTrace", jobs, cases)
