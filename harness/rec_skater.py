"""Recording fits of the spanning forest, judged by SkaterTrace.tla."""
import random
import warnings

import numpy as np

import algos
import gen
from common import clean, int_labels, outcome


def metric_of(name):
    from sklearn.metrics import pairwise as skm
    from scipy.spatial.distance import cdist
    named = {"manhattan": skm.manhattan_distances, "cityblock": skm.manhattan_distances,
             "l1": skm.manhattan_distances, "euclidean": skm.euclidean_distances}
    if name in named:
        return named[name]
    return lambda X, Y=None: cdist(X, X if Y is None else Y, name)


def model_of(job):
    from region.skater.skater import Spanning_Forest
    o = job["obj"]
    metric = metric_of(o["metric"])
    kw = dict(reduction=algos.FUNCS[o["red"]], center=algos.FUNCS[o["centre"]])
    if job.get("affinity"):
        return Spanning_Forest(affinity=lambda X, Y=None: np.exp(-metric(X, Y)), **kw)
    if job.get("defaults") and o["metric"] == "manhattan" and o["centre"] == "mean" \
            and o["red"] == "sum":
        return Spanning_Forest()
    return Spanning_Forest(dissimilarity=metric, **kw)


def w_of(job):
    from libpysal import weights
    nb = job["nb"]
    names = job.get("names") or list(range(len(nb)))
    wts = None
    if job.get("wts"):
        rng = random.Random(job["seed"])
        val = {}
        for a in range(len(nb)):
            for b in nb[a]:
                val[a, b] = val.get((b, a)) or rng.choice([0.5, 1, 2, 7])
        wts = {names[a]: [val[a, b] for b in nb[a]] for a in range(len(nb))}
    w = weights.W({names[a]: [names[b] for b in nb[a]] for a in range(len(nb))}, weights=wts,
                  id_order=names, silence_warnings=True)
    if job.get("transform"):
        w.transform = job["transform"]
    return w


def edges(forest):
    return [[int(a) + 1, int(b) + 1] for a, b in zip(*forest.nonzero())]


def fit_args(job, n):
    kw = {}
    if job["quorum"] > 0 or job.get("explicit"):
        kw["quorum"] = job["quorum"]
    if job.get("islands") is not None:
        kw["islands"] = job["islands"]
    data = None if job.get("nodata") else algos.attr_array(job)
    return (n, w_of(job), data), kw


def do_fit(job, n, model=None):
    model = model or model_of(job)
    args, kw = fit_args(job, n)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        model.fit(*args, trace=bool(job.get("trace")), **kw)
    texts = [str(w.message) for w in got if "OptimizeWarning" in w.category.__name__]
    return model, texts


def base(job):
    return dict(nb=gen.tla_map(job["nb"]), attr=job["attr"], obj=job["obj"], what="",
                quorum=job["quorum"], islands=(job.get("islands") or "increase").lower(), mode=job["mode"])


def fit_case(job):
    def run():
        model, texts = do_fit(job, job["n"])
        return int_labels(model.current_labels_), edges(model.minimum_spanning_forest_), texts

    kind, res = outcome(run, 30)
    if kind != "ok":
        return dict(base(job), n=job["n"], kind=kind, labels=[], forest=[], warned=False,
                    stuckwarned=False, what=clean(res))
    # besides the notice about islands there is a warning iff regions are missing
    stuck = [t for t in res[2] if "disconnected" not in t]
    return dict(base(job), n=job["n"], kind="ok", labels=res[0] or [], forest=res[1],
                warned=bool(stuck), stuckwarned=bool(stuck))


def number(x, unit=1):
    x = float(np.asarray(x, dtype=float).reshape(-1)[0]) / unit
    if x == np.inf:
        return -1
    k = round(x)
    return k if abs(k - x) <= 1e-6 * max(1, abs(k)) and 0 <= k < 2 ** 31 else -7


def prune_case(job):
    rng = random.Random(job["seed"])
    n = len(job["nb"])
    res = dict(base(job), forests=[], labels=[], scores=[], finds=[], cuts=[], trace=[])
    data = algos.attr_array(job)
    unit = algos.unit(job)
    job = dict(job, islands="ignore")

    def run():
        k = len(gen.components(job["nb"]))
        shared = model_of(job)
        for target in range(k, n + 2):
            # a model may be fitted anew for each number of regions
            model, _ = do_fit(job, target, shared if rng.random() < 0.5 else None)
            forest = model.minimum_spanning_forest_.copy()
            labels = model.current_labels_.copy()
            res["forests"].append(edges(forest))
            res["labels"].append(int_labels(labels))
            score = model.score(data)
            res["scores"].append(dict(labels=int_labels(labels), quorum=0, value=number(score, unit)))
            q = rng.randint(0, 3)
            plain = not job["affinity"] and rng.random() < 0.1      # without any data
            args = (forest.copy(),) if plain else (forest.copy(), data)
            kw = {"quorum": q} if q or rng.random() < 0.5 else {}
            if rng.random() < 0.5:
                found = model.find_cut(*args, **kw)
                within = list(range(1, n + 1))
            else:
                t = rng.choice(sorted(set(labels.tolist())))
                found = model.find_cut(*args, labels=labels, target_label=t, **kw)
                within = [a + 1 for a in range(n) if labels[a] == t]
            inn, out, sc = found
            isnone = not np.isfinite(sc)
            res["finds"].append(dict(forest=edges(forest), quorum=q, within=within, plain=plain,
                                     edge=[] if isnone else [int(inn) + 1, int(out) + 1],
                                     score=-1 if isnone else number(sc, unit)))
            if forest.nnz:
                a, b = rng.choice(edges(forest))
                after, cnt, lab = model.make_cut(a - 1, b - 1, 1.0, MSF=forest.copy())
                res["cuts"].append(dict(forest=edges(forest), edge=[a, b], after=edges(after),
                                        labels=int_labels(lab), count=int(cnt)))
            if len(set(labels.tolist())) < target:
                break
        model, _ = do_fit(dict(job, trace=True), rng.randint(k, n + 1),
                          shared if rng.random() < 0.5 else None)
        # kept under a private name: elsewhere, or of another form, it is not looked at
        told = getattr(model, "_trace", None)
        if isinstance(told, list) and all(isinstance(t, tuple) and len(t) == 2 for t in told):
            res["trace"].append(dict(
                labels=[int_labels(lab) for lab, _ in told],
                links=[[int(d[0]) + 1, int(d[1]) + 1] for _, d in told[1:]],
                scores=[number(d[2], unit) for _, d in told[1:]],
                forest=edges(model.minimum_spanning_forest_),
                final=int_labels(model.current_labels_)))
        for _ in range(3):
            lab = [rng.choice([0, 1, 2, 7, 11]) for _ in range(n)]
            q = rng.choice([-np.inf, 0, 1, 2])
            kw = {} if q == -np.inf else {"quorum": q}
            res["scores"].append(dict(labels=lab, quorum=max(0, q) if kw else 0,
                                      value=number(shared.score(data, labels=np.array(lab), **kw), unit)))

    kind, err = outcome(run, 60)
    return dict(res, kind=kind, what=clean(err) if kind != "ok" else "")


def rand_skater(rng, mode, nmax):
    nb = gen.rich_map(rng, 2, nmax) if rng.random() < 0.6 else gen.rand_map(rng, 1, nmax)
    n = len(nb)
    affinity = rng.random() < 0.25
    while True:
        obj, attr = algos.rand_obj(rng, n, ["centre"])
        top = max(abs(x) for row in attr for x in row)
        if top * len(attr[0]) < (100 if affinity else 10 ** 6) and \
                not (affinity and obj["metric"] == "sqeuclidean" and top > 9):
            break
        if affinity:
            obj, attr = dict(kind="centre", metric="manhattan", centre=rng.choice(["max", "min"]),
                             red=rng.choice(["sum", "max"])), gen.rand_attr(rng, n, style="digits")
            break
    if len(attr[0]) == 1 and obj["metric"] == "manhattan" and rng.random() < 0.3:
        obj["metric"] = "euclidean"
    if rng.random() < 0.1:
        attr = [list(attr[0]) for _ in range(n)]
    job = dict(mode=mode, nb=[sorted(s) for s in nb], obj=obj, attr=attr, affinity=affinity,
               quorum=rng.choice([0, 0, 0, 1, 2, 2, 3, 4]), seed=rng.randrange(10 ** 6),
               attrdtype=rng.choice(["int", "float"]), defaults=rng.random() < 0.5,
               transform=rng.choice([None, None, "r", "b", "o"]), wts=rng.random() < 0.2,
               trace=rng.random() < 0.2)
    if not affinity:
        job["exp"] = algos.rand_exp(rng)
    if rng.random() < 0.3:
        job["names"] = rng.sample(["area {:02d}".format(k) for k in range(n)], n)
    if mode == "fit":
        job["islands"] = rng.choice([None, "increase", "ignore", "ignore", "Ignore"])
        job["n"] = rng.choice([1, 2, 2, 3, 3, 4, rng.randint(1, n), n, n + 1])
        if rng.random() < 0.05:
            job.update(nodata=True, attr=[[1]] * n, affinity=False)
    else:
        comps = gen.components(nb)
        job["quorum"] = min([job["quorum"]] + [len(c) for c in comps])
    return job


def instance_jobs(ctx, mode, quick):
    """Requests for the instances of MC_Skater."""
    rng = ctx.rng("instances")
    jobs, seen = [], set()
    for n, v in ((3, 3), (4, 1), (4, 99)):
        for inst in ctx.instances(rng, ctx.n(quick // 3, 5000), "skater", n, v):
            job = dict(inst, mode=mode, seed=rng.randrange(10 ** 6), affinity=False,
                       obj=dict(kind="centre", metric="manhattan",
                                centre=rng.choice(["max", "min"]), red=rng.choice(["sum", "max"])),
                       attrdtype=rng.choice(["int", "float"]), defaults=False,
                       transform=None, islands=rng.choice([None, "increase", "ignore"]),
                       exp=algos.rand_exp(rng))
            if mode == "prune":
                key = repr((job["nb"], job["attr"], job["quorum"]))
                if key in seen:
                    continue
                seen.add(key)
            jobs.append(job)
    return jobs
