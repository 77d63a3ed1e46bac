"""C18: objective functions: the update equals the change of the objective value."""
import numpy as np

import algos
import common
import gen
from common import clean, outcome


def number(x, unit):
    """The exact integer that x stands for, or None."""
    arr = np.asarray(x, dtype=float).reshape(-1) / unit
    if arr.size != 1 or not np.isfinite(arr[0]):
        return None
    k = round(float(arr[0]))
    return k if abs(k - arr[0]) <= 1e-7 * max(1, abs(k)) and abs(k) < 2 ** 31 else None


def recorder(job):
    labels = np.array(job["labels"], dtype=job["ldtype"])
    labels = (labels * job.get("lscale", 1)).astype(job["ldtype"])      # the names of the regions
    attr = algos.attr_array(job)
    keep = labels.copy(), attr.copy()
    res = dict(labels=job["labels"], attr=job["attr"], obj=job["obj"], value=0, moves=[], what="")
    out = []

    def run():
        obj = algos.objective(job["obj"])
        for a, r in job["order"]:
            if a is None:
                out.append((None, None, obj(labels, attr)))
            else:
                out.append((a, r, obj.update(a, labels.dtype.type(r * job.get("lscale", 1)),
                                             labels, attr)))

    kind, err = outcome(run)
    if kind != "ok":
        return dict(res, kind="error", what=clean(err))
    if (labels != keep[0]).any() or (attr != keep[1]).any():
        return dict(res, kind="mutated")
    for a, r, x in out:
        k = number(x, algos.unit(job))
        if k is None:
            return dict(res, kind="inexact", what=clean(x))
        if a is None:
            res["value"] = k
        else:
            res["moves"].append([a + 1, r, k])
    return dict(res, kind="ok")


RECORDERS = {"values": recorder}


def rand_case(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 6, 8, 10])
    obj, attr = algos.rand_obj(rng, n, [rng.choice(["pairwise", "centre"])])
    if obj["kind"] == "centre" and obj["metric"] == "manhattan" and len(attr[0]) == 1 \
            and max(abs(r[0]) for r in attr) < 15000 and rng.random() < 0.5:
        obj["metric"] = rng.choice(["euclidean", "l2"])
    k = rng.randint(1, n)
    names = rng.sample(range(-5, 40), k) if rng.random() < 0.5 else list(range(k))
    labels = [rng.choice(names) for _ in range(n)]
    moves = [(a, r) for a in range(n) for r in sorted(set(labels)) if r != labels[a]]
    rng.shuffle(moves)
    order = moves[:12]
    order.insert(rng.randint(0, len(order)), (None, None))
    ldtype = rng.choice(["int", "int32", "float"])
    return dict(labels=labels, attr=attr, obj=obj, order=order, seed=0,
                ldtype=ldtype, lscale=rng.choice([1, 0.5, 0.25]) if ldtype == "float" else 1,
                attrdtype=rng.choice(["int", "float"]), exp=algos.rand_exp(rng))


def run(ctx):
    rng = ctx.rng("values")
    ctx.model("objectives of all labellings", "MC_Objective", workers=8)
    jobs = [rand_case(rng) for _ in range(ctx.n(5000, 60000))]
    for _ in range(ctx.n(12, 200)):         # large regions, many regions
        job = rand_case(rng)
        n = rng.randint(130, 300)
        k = rng.choice([1, 2, 5, n // 2, n - 3])
        labels = [rng.randrange(k) for _ in range(n)]
        present = sorted(set(labels))
        order = [(a, rng.choice(present)) for a in rng.sample(range(n), 12)]
        job.update(labels=labels, attr=gen.rand_attr(rng, n, 1, rng.choice(["bits", "digits", "neg"])),
                   order=[(a, r) for a, r in order if labels[a] != r] + [(None, None)],
                   obj=dict(kind=rng.choice(["pairwise", "centre"]), metric="manhattan",
                            centre=rng.choice(["max", "min"]), red="sum"))
        jobs.append(job)
    cases = common.record(recorder, jobs)
    ctx.judge("values", "Objective", jobs, cases, weight=lambda c: 1 + len(c["moves"]))
