"""Recording fits and conversions in all input formats, judged by Formats.tla."""
import copy
import random

import numpy as np

import algos
import api
import gen
import rec_exact
from common import Budget, clean, int_labels

ESTS = ("azp", "sa", "tabu", "rtabu", "maxp", "pexact", "maxpexact", "skater")


def watching(job, seen, state, budget=60000, keep=60):
    base = api.objective_of(job)
    calls = [0]
    last = {}

    class Watching(type(base)):
        def update(self, moving_area, recipient_region, labels, attr):
            calls[0] += 1
            if calls[0] > budget:
                raise Budget()
            try:
                arr = np.asarray(attr, dtype=float)
                rows = tuple(map(tuple, arr.tolist()))
                lab = [float(x) for x in labels]
                if last.get(rows) != lab:
                    last[rows] = lab
                    if len(seen) < keep:
                        seen.append((rows, lab))
                    else:
                        state["whole"] = False
            except Budget:
                raise
            except Exception:
                state["odd"] = True
            return super().update(moving_area, recipient_region, labels, attr)

    obj = copy.copy(base)
    obj.__class__ = Watching
    return obj


def ints(xs):
    """Integers, or None."""
    out = []
    for x in xs:
        if not np.isfinite(x) or x != round(x) or abs(x) > 10 ** 9:
            return None
        out.append(int(x))
    return out


def setting(job):
    """The parts of a case that describe the map and its areas."""
    n = len(job["nb"])
    names = job.get("names") or list(range(n))
    rank = [0] * n
    for k, a in enumerate(sorted(range(n), key=lambda a: names[a])):
        rank[a] = k + 1
    cells = [list(x) for x in job["cells"]] if job["fmt"] == "gdf" else []
    return dict(fmt=job["fmt"], rows=[a + 1 for a in job["order"]], rank=rank,
                nb=[] if cells else gen.tla_map(job["nb"]), cells=cells,
                queen=(job.get("contiguity") or "").lower() == "queen")


def fit_case(job):
    seen, state = [], {"whole": True, "odd": False}
    obj = watching(job, seen, state) if job["est"] in api.HEUR + ("maxp",) else None

    def run():
        est = api.construct(job)
        api.call(est, job, api.arguments(job), obj)
        return est

    kind, res = api.guarded(job, run)
    labels = int_labels(api.labels_of(res)) if kind == "ok" else []
    logged = []
    for rows, lab in seen:
        r, l = [ints(x) for x in rows], ints(lab)
        if l is None or any(x is None for x in r):
            r, l = [[-1]], [0]       # not values of any area
        logged.append(dict(rows=r, labels=l))
    return dict(setting(job), mode="fit", est=job["est"], p=job.get("p", 0),
                attr=job["attr"], ext=job.get("ext") or [], thr=job.get("thr") or [],
                metric=job.get("metric", ""), start=job.get("start") or [],
                quorum=max(0, job.get("quorum", 0)) if job["est"] == "skater" else 0,
                kind=kind, labels=labels or [], seen=logged, whole=state["whole"],
                mayrun=job["est"] in ("sa", "maxp"),
                what="{} {} {}".format(job["est"], job["fmt"], clean(res) if kind != "ok" else ""))


# --------------------------------------------------------------------------
# converters

CONV = ["matrix-dict", "matrix-w", "w-gdf", "table-dict", "table-dict-keys", "table-dict-flat",
        "table-graph", "table-graph-or-dict", "table-df", "dict-df", "dict-graph"]


def others(x):
    """The links between different areas (an area may have been listed as its own neighbour)."""
    return [[int(v) if a != b else 0 for b, v in enumerate(row)] for a, row in enumerate(x)]


def convert_case(job):
    import region.util as u
    conv, n = job["conv"], len(job["nb"])
    names = job["names"]
    base = dict(setting(job), mode="matrix" if conv in ("matrix-dict", "matrix-w", "w-gdf")
                else "table", attr=job["attr"], matrix=[], table=[], kind="ok", what=conv)

    def table(x):
        rows = [ints(np.asarray(r, dtype=float).reshape(-1)) for r in x]
        return [[-77] if r is None else r for r in rows]

    def run():
        args = api.arguments(dict(job, est="azp"))
        m, at = args["map"], args["attr"]
        if conv == "matrix-dict":
            base["matrix"] = others(u.scipy_sparse_matrix_from_dict(m).toarray())
        elif conv == "matrix-w":
            base["matrix"] = others(u.scipy_sparse_matrix_from_w(m).toarray() != 0)
        elif conv == "w-gdf":
            w = u.w_from_gdf(m, job["contiguity"])
            base["matrix"] = (w.sparse.toarray() != 0).astype(int).tolist()
        elif conv == "table-dict":
            base["table"] = table(u.array_from_dict_values(at))
        elif conv == "table-dict-keys":
            base["table"] = table(u.array_from_dict_values(
                at, sorted_keys=[names[a] for a in job["order"]]))
            base["fmt"] = "nx"       # in the given order
        elif conv == "table-dict-flat":
            m = len(job["attr"][0])
            flat = np.asarray(u.array_from_dict_values(at, flat_output=True))
            base["table"] = table([flat[k * m:(k + 1) * m] for k in range(n)]) \
                if flat.shape == (n * m,) else []
        elif conv == "table-graph":
            base["table"] = table(u.array_from_graph(m, at))
        elif conv == "table-graph-or-dict":
            base["table"] = table(u.array_from_graph_or_dict(m, at))
        elif conv == "table-df":
            base["table"] = table(u.array_from_df_col(m, at))
        elif conv == "dict-df":
            d = u.dataframe_to_dict(m, at)
            keys = list(m.index)
            base["table"] = table([d[k] for k in keys]) if len(d) == n else []
        elif conv == "dict-graph":
            d = u.dict_from_graph_attr(m, at, array_values=job["arrays"])
            base["table"] = table([d[names[a]] for a in job["order"]]) if len(d) == n else []

    kind, res = api.guarded(dict(job, est="azp"), run)
    if kind != "ok":
        base.update(kind=kind, what=conv + " " + clean(res))
    return base


def rand_convert(rng, conv, nmin=1, nmax=9):
    job = dict(conv=conv, est="azp")
    job["fmt"] = {"matrix-dict": "dict", "matrix-w": "w", "w-gdf": "gdf", "table-df": "gdf",
                  "dict-df": "gdf"}.get(conv, "dict" if conv.startswith("table-dict") else "nx")
    nb = api.rand_map_for(rng, job, nmin, nmax)
    n = len(nb)
    job["attr"] = distinct(rng, n, rng.choice([0, 0, 1, 2]) if rng.random() < 0.94 else 11)
    if job.get("contiguity") is None:
        job["contiguity"] = "rook"
    if job["fmt"] == "nx":
        job["nxattr"] = "dict" if conv == "table-graph-or-dict" and rng.random() < 0.5 else "node"
    job["arrays"] = rng.random() < 0.5
    return job


# --------------------------------------------------------------------------
# requests

def distinct(rng, n, more):
    """A table with a distinct row per area; rows differ as bags, too."""
    ids = rng.sample(range(100, 100 + 4 * n), n)
    cols = [[rng.randint(0, 9) for _ in range(more)] for _ in range(n)]
    at = rng.randrange(more + 1)
    return [c[:at] + [i] + c[at:] for c, i in zip(cols, ids)]


def rand_fit(rng, est, fmt=None, nmax=9, nmin=2):
    job = dict(est=est, seed=rng.randrange(10 ** 6))
    job["fmt"] = fmt or rng.choice(api.FORMATS)
    if est == "skater":
        job["fmt"] = "w"
    exact = est in ("pexact", "maxpexact")
    nb = api.rand_map_for(rng, job, nmin, rng.choice([3, 4, 5, 5, 6]) if exact else nmax)
    n = len(nb)
    job["attr"] = distinct(rng, n, rng.choice([0, 0, 1, 2]) if rng.random() < 0.94 or exact else 11)
    if est in api.HEUR:
        job["par"] = algos.rand_par(rng, est)
        if est == "sa":
            job["par"]["max_iterations"] = rng.choice([1, 2])
            job["cpu"] = 5
    if est == "maxp":
        job["cpu"] = 10
        job["max_it"] = rng.choice([1, 2])
    if est in api.HEUR + ("maxp",):
        kind = rng.choice(["pairwise", "pairwise", "centre"])
        job["obj"] = dict(kind=kind, metric=rng.choice(["manhattan", "euclidean"]),
                          centre=rng.choice(["mean", "median"]), red=rng.choice(["sum", "max"]))
        if est == "sa":
            job["obj"] = dict(kind="pairwise", metric="manhattan", centre="mean", red="sum")
            sp = [[3 * (1 << min(k, 20)) + rng.randint(0, 1)] for k in range(n)]
            rng.shuffle(sp)
            job["attr"] = sp
    if exact:
        job["metric"] = "manhattan"
        job["method"] = rng.choice(["flow", "order", "tree"])
        job["wall"] = 15
    if est in ("maxp", "maxpexact"):
        m = rng.choice([1, 1, 2])
        job["ext"] = [[rng.choice([0, 1, 2, 5, 9, 14]) for _ in range(m)] for _ in range(n)]
        job["scalarthr"] = m > 1 and rng.random() < 0.3
        thr = rec_exact.rand_thr(rng, nb, job["ext"], same=job["scalarthr"])
        if rng.random() < 0.6:
            thr = [t // rng.choice([2, 3]) for t in thr]
        if job["scalarthr"]:
            thr = [min(thr)] * m
        job["thr"] = thr
        return job
    if est == "skater":
        job["affinity"] = job["flatattr"] = False
        job["obj"] = dict(kind="centre", metric="manhattan", centre="mean", red="sum")
        comps = gen.components(nb)
        job["quorum"] = rng.choice([0, 1, min(2, min(len(c) for c in comps))])
        job["n"] = rng.randint(min(len(comps), n), n)
        job["islands"] = rng.choice([None, "increase", "ignore"])
        return job
    if n > 100:         # many regions: not much to do
        job["p"] = max(len(gen.components(nb)), n - rng.randint(2, 12))
        job.update(cpu=120, start=gen.rand_start(rng, nb, job["p"]) if est in api.HEUR else None,
                   obj=dict(job["obj"], kind="pairwise", metric="manhattan"))
        return job
    job["p"] = gen.rich_p(rng, nb) if not exact and rng.random() < 0.7 else gen.rand_p(rng, nb)
    if est in api.HEUR and rng.random() < 0.6:
        job["start"] = gen.rand_start(rng, nb, job["p"])
    return job
