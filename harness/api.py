"""
Calling the public interface of every estimator in every input format.

A job describes one request:
  est      azp, sa, tabu, rtabu, maxp, pexact, maxpexact, skater
  nb       neighbours (0-based areas); attr, p / ext, thr / n, quorum; start
  fmt      sparse, fit, w, nx, dict, gdf
  order    insertion order of the areas;  names of the areas
"""
import copy
import os
import tempfile

import numpy as np

import algos
import gen
import rec_skater
from common import adj_of, clean, int_labels, outcome, outcome_wall

HEUR = ("azp", "sa", "tabu", "rtabu")
FORMATS = ["sparse", "fit", "w", "nx", "dict", "gdf"]


class Aborted(Exception):
    """Raised by an objective function or metric in the middle of a fit."""


# --------------------------------------------------------------------------
# estimators

def construct(job):
    par = dict(job.get("par", {}))
    seed = job.get("seed", 0)
    kind = job["est"]
    spoil = job.get("spoil")
    if kind in HEUR:
        from region.p_regions.azp import AZP, AZPBasicTabu, AZPReactiveTabu, AZPSimulatedAnnealing
        par.update(job.get("badpar", {}))
        if spoil == "strategy":
            par["allow_move_strategy"] = {"none": 0, "str": "azp", "cls": object}[job["badvalue"]]
        return {"azp": AZP, "sa": AZPSimulatedAnnealing, "tabu": AZPBasicTabu,
                "rtabu": AZPReactiveTabu}[kind](random_state=seed, **par)
    if kind == "maxp":
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        ls = None
        if job.get("ls"):
            ls = construct(dict(est=job["ls"], par=job.get("lspar", {}), seed=seed))
        return MaxPRegionsHeu(local_search=ls, random_state=seed)
    if kind == "pexact":
        from region.p_regions.exact import PRegionsExact
        return PRegionsExact()
    if kind == "maxpexact":
        from region.max_p_regions.exact import MaxPRegionsExact
        return MaxPRegionsExact()
    return rec_skater.model_of(job)


def labels_of(est):
    res = getattr(est, "labels_", None)
    return getattr(est, "current_labels_", None) if res is None else res


# --------------------------------------------------------------------------
# arguments

def values(job, rows, key):
    """Column(s) of an attribute table as one array, or flat."""
    dtype = job.get(key + "dtype", "int")
    arr = np.array([job[key][a] for a in rows], dtype=dtype)
    if job.get("flat" + key) and arr.shape[1] == 1:
        arr = arr.reshape(-1)
    return arr


def dict_values(job, key, names, rows):
    style = job.get("values", "scalar")
    out = {}
    for a in rows:
        row = job[key][a]
        if len(row) == 1 and style == "scalar":
            out[names[a]] = row[0]
        elif style == "array":
            out[names[a]] = np.array(row)
        else:
            out[names[a]] = list(row)
    return out


def cell(rc):
    from shapely.geometry import Polygon
    r, c = rc
    return Polygon([(c, r), (c + 1, r), (c + 1, r + 1), (c, r + 1)])


def column_names(key, m, odd=False):
    return ["{} {}".format(key, "zyxwvutsrqponmlkjihgfedcba"[k] if odd else k) for k in range(m)]


def around(job, nb, a):
    """The areas listed as neighbours of a: an area itself is none, even where it is listed."""
    return list(nb[a]) + ([a] if job.get("selfs") and a % 3 != 1 else [])


def arguments(job):
    """name -> object, the arguments of the fit that describe the map and its areas."""
    fmt = job["fmt"]
    nb, n = job["nb"], len(job["nb"])
    rows = job.get("order") or list(range(n))
    order2 = job.get("order2") or rows
    names = job.get("names") or list(range(n))
    ext = job.get("ext") if job["est"] in ("maxp", "maxpexact") else None
    start = job.get("start") if job["est"] in HEUR else None
    sdtype = job.get("startdtype", "int")
    spoil = job.get("spoil")
    args = {}
    if fmt in ("sparse", "fit", "w", "gdf"):
        pos = {a: k for k, a in enumerate(rows)}
        if fmt == "w":
            from libpysal import weights
            nbs = {names[a]: [names[b] for b in around(job, nb, a)] for a in rows}
            kw = {}
            if job.get("idorder", True):
                kw["id_order"] = [names[a] for a in rows]
            args["map"] = weights.W(nbs, silence_warnings=True, **kw)
            if job.get("transform"):
                args["map"].transform = job["transform"]
        elif fmt == "gdf":
            import geopandas
            cols = {}
            for key in ("attr",) + (("ext",) if ext else ()):
                arr = np.array([job[key][a] for a in rows], dtype=job.get(key + "dtype", "int"))
                for k, c in enumerate(column_names(key, arr.shape[1], job.get("oddcols"))):
                    cols[c] = arr[:, k]
            index = [names[a] for a in rows] if job.get("index") else None
            items = list(cols.items())
            if job.get("oddcols"):
                items.reverse()
            args["map"] = geopandas.GeoDataFrame(
                dict(items), geometry=[cell(job["cells"][a]) for a in rows], index=index)
        else:
            args["map"] = adj_of([sorted(pos[b] for b in nb[a]) for a in rows],
                                 dtype=job.get("adjdtype", "int"))
        for key in ("attr",) + (("ext",) if ext else ()):
            if fmt == "gdf":
                cs = column_names(key, len(job[key][0]), job.get("oddcols"))
                args[key] = cs[0] if len(cs) == 1 and job.get("values") != "list" else cs
            else:
                args[key] = values(job, rows, key)
        if start:
            args["start"] = np.array([start[a] for a in rows if a < len(start)], dtype=sdtype)
            if len(start) > n:
                args["start"] = np.append(args["start"], np.array(start[n:], dtype=sdtype))
    elif fmt == "nx":
        import networkx as nx
        g = nx.Graph()
        g.add_nodes_from(names[a] for a in rows)
        edges = [(a, b) for a in order2 for b in around(job, nb, a)
                 if a <= b or job.get("bothways")]
        for k, (a, b) in enumerate(edges):
            if job.get("edgeweights"):
                g.add_edge(names[a], names[b], weight=1 + (a + b) % 3)
            else:
                g.add_edge(names[a], names[b])
        args["map"] = g
        for key in ("attr",) + (("ext",) if ext else ()):
            if job.get("nxattr", "node") == "dict":
                args[key] = dict_values(job, key, names, order2)
            else:
                cs = column_names(key, len(job[key][0]), job.get("oddcols"))
                for k, c in enumerate(cs):
                    nx.set_node_attributes(g, {names[a]: job[key][a][k] for a in order2}, c)
                args[key] = cs[0] if len(cs) == 1 and job.get("values") != "list" else cs
        if start:
            sd = {names[a]: start[a] for a in order2 if a < len(start)}
            if job.get("nxstart", "node") == "dict":
                args["start"] = sd
            else:
                nx.set_node_attributes(g, sd, "the start")
                args["start"] = "the start"
    else:
        kind = {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset}[
            job.get("neighbours", "set")]
        args["map"] = {names[a]: kind(names[b] for b in around(job, nb, a)) for a in rows}
        for key in ("attr",) + (("ext",) if ext else ()):
            args[key] = dict_values(job, key, names, order2)
        if start:
            args["start"] = {names[a]: start[a] for a in order2 if a < len(start)}
    if ext:
        thr = job["thr"]
        if len(thr) > 1 and not job.get("scalarthr"):
            args["thr"] = np.array(thr)
        else:
            args["thr"] = thr[0]
    if job.get("frozen"):
        for v in args.values():
            if isinstance(v, np.ndarray):
                v.setflags(write=False)
            elif hasattr(v, "indptr"):
                for x in (v.data, v.indices, v.indptr):
                    x.setflags(write=False)
    if spoil:
        spoil_arguments(job, args, names)
    return args


def spoil_arguments(job, args, names):
    s, v = job["spoil"], job.get("badvalue")
    if s == "key-missing":
        args[v] = dict(list(args[v].items())[:-1])
    elif s == "key-added":
        one = next(iter(args[v].values()))
        args[v] = dict(args[v], **{"another area": one}) if isinstance(names[0], str) \
            else {**args[v], (10 ** 6 if not isinstance(names[0], tuple) else (99, 99)): one}
    elif s == "key-renamed":
        it = list(args[v].items())
        it[0] = ("another area" if isinstance(names[0], str) else
                 (99, 99) if isinstance(names[0], tuple) else 10 ** 6, it[0][1])
        args[v] = dict(it)
    elif s == "neighbour-unknown":
        key = next(iter(args["map"]))
        args["map"] = dict(args["map"])
        args["map"][key] = list(args["map"][key]) + [
            "another area" if isinstance(names[0], str) else
            (99, 99) if isinstance(names[0], tuple) else 10 ** 6]
    elif s == "not-a-dict":
        args[v] = list(args[v].items())
    elif s == "ragged":
        keys = list(args[v])
        rows = {k: list(np.asarray(x).reshape(-1)) for k, x in args[v].items()}
        # the number of values stays a multiple of the number of areas
        rows[keys[0]], rows[keys[-1]] = rows[keys[0]] + rows[keys[-1]][:1], rows[keys[-1]][1:]
        args[v] = rows
    elif s == "column-unknown":
        args[v] = "no such column"
    elif s == "column-partial":     # two columns that together have one value per area
        import networkx as nx
        g = args["map"]
        nodes = list(g.nodes())
        h = max(1, len(nodes) // 2)
        nx.set_node_attributes(g, {x: 1 for x in nodes[:h]}, "first half")
        nx.set_node_attributes(g, {x: 2 for x in nodes[h:]}, "second half")
        # all values of one area come from one column or from both
        nx.set_node_attributes(g, {nodes[0]: 3}, "second half")
        if len(nodes) > 1:
            del g.nodes[nodes[-1]]["second half"]
        args[v] = ["first half", "second half"]
    elif s == "columns-not-text":
        args[v] = {"num": 5, "none": None, "nums": [1, 2]}[job.get("badcols", "num")]


def objective_of(job):
    spec = job["obj"]
    if job.get("spoil") == "metric":
        from region.objective_function import ObjectiveFunctionPairwise, ObjectiveFunctionCenter
        cls = ObjectiveFunctionPairwise if spec["kind"] == "pairwise" else ObjectiveFunctionCenter
        return cls(job["badvalue"])
    obj = algos.objective(spec)
    if job.get("abort"):
        left = [job["abort"]]

        class Raising(type(obj)):
            def tick(self):
                left[0] -= 1
                if left[0] <= 0:
                    raise Aborted("objective")

            def __call__(self, *a):
                self.tick()
                return super().__call__(*a)

            def update(self, *a):
                self.tick()
                return super().update(*a)

        obj = copy.copy(obj)
        obj.__class__ = Raising
    return obj


def call(est, job, args, obj=None):
    """Run the fit method that belongs to the format."""
    kind, fmt = job["est"], job["fmt"]
    if kind == "skater":
        return skater_call(est, job, args)
    method = {"sparse": "fit_from_scipy_sparse_matrix", "fit": "fit", "w": "fit_from_w",
              "nx": "fit_from_networkx", "dict": "fit_from_dict",
              "gdf": "fit_from_geodataframe"}[fmt]
    if method == "fit" and not hasattr(est, "fit"):
        method = "fit_from_scipy_sparse_matrix"
    fit = getattr(est, method)
    pos = [args["map"], args["attr"]]
    kw = {}
    if kind in HEUR or kind == "pexact":
        pos.append(job.get("badp", job["p"]))
    else:
        pos += [args["ext"], args["thr"]]
    if fmt == "gdf":
        if job.get("contiguity"):
            kw["contiguity"] = job["contiguity"]
        if job.get("spoil") == "contiguity":
            kw["contiguity"] = job["badvalue"]
    if kind in HEUR:
        if job.get("start"):
            kw["initial_labels"] = args["start"]
        if kind == "sa":
            kw["cooling_factor"] = job.get("badcool", job.get("cool", 0.85))
    if kind in HEUR or kind == "maxp":
        kw["objective_func"] = objective_of(job) if obj is None else obj
    if kind == "maxp" and "max_it" in job:
        kw["max_it"] = job["max_it"]
    if kind == "pexact":
        kw["method"] = job["badvalue"] if job.get("spoil") == "method" else job.get("method", "flow")
    if kind in ("pexact", "maxpexact"):
        kw["metric"] = job["badvalue"] if job.get("spoil") == "metric" \
            else algos.metric_function(job["metric"])
        if job.get("spoil") == "solver":
            kw["solver"] = job["badvalue"]
    return fit(*pos, **kw)


def skater_call(est, job, args):
    if job.get("spoil") == "find-cut":
        return est.find_cut(args["map"].sparse, args["attr"], **job["badvalue"])
    if job.get("spoil") == "score":
        return est.score(args["attr"], **job["badvalue"])
    kw = {}
    if job["quorum"] > 0:
        kw["quorum"] = job["quorum"]
    if job.get("islands"):
        kw["islands"] = job["islands"]
    return est.fit(job["n"], args["map"], args["attr"], **kw)


# --------------------------------------------------------------------------
# observing the arguments

def snapshot(x):
    """A description of an argument that is equal iff the caller sees the same thing."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tolist())
    if hasattr(x, "indptr"):
        return ("sparse", x.format, x.shape, x.toarray().tolist(), str(x.dtype))
    t = type(x).__module__
    if t.startswith("networkx"):
        return ("graph", [(k, sorted(((a, snapshot(b)) for a, b in d.items()), key=str))
                          for k, d in x.nodes(data=True)],
                sorted(((tuple(sorted(map(repr, (a, b)))), repr(sorted(d.items())))
                        for a, b, d in x.edges(data=True))), repr(x.graph))
    if t.startswith("libpysal"):
        return ("w", [(k, list(x.neighbors[k]), [float(v) for v in x.weights[k]])
                      for k in x.id_order], list(x.id_order), x.transform,
                sorted(map(repr, x.transformations)) if False else None)
    if t.startswith("geopandas") or t.startswith("pandas"):
        return ("frame", list(x.columns), list(x.index), [str(d) for d in x.dtypes],
                [[repr(v) if not hasattr(v, "wkt") else v.wkt for v in x[c]] for c in x.columns])
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    return (type(x).__name__, repr(x))


def guarded(job, fn):
    """outcome(fn) with the limits that suit the estimator."""
    if job["est"] in ("pexact", "maxpexact"):
        home = os.getcwd()
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as d:
            os.chdir(d)
            try:
                return outcome_wall(fn, job.get("wall", 20))
            finally:
                os.chdir(home)
    return outcome(fn, cpu=job.get("cpu", 20))


# --------------------------------------------------------------------------
# generating requests

def rand_cells(rng, n):
    """n unit squares, connected or not, in random order."""
    cells = [(0, 0)]
    while len(cells) < n:
        r, c = rng.choice(cells)
        if rng.random() < 0.1:
            x = (r + rng.choice([2, 3]), c + rng.choice([2, -3]))
        else:
            x = (r + rng.choice([-1, 0, 1]), c + rng.choice([-1, 0, 1]))
        if x not in cells:
            cells.append(x)
    rng.shuffle(cells)
    return cells


def touching(cells, queen):
    nb = []
    for r, c in cells:
        s = set()
        for k, (r2, c2) in enumerate(cells):
            d = (abs(r - r2), abs(c - c2))
            if d in ((0, 1), (1, 0)) or (queen and d == (1, 1)):
                s.add(k)
        nb.append(s)
    return nb


def rand_names(rng, n, hashable=True):
    style = rng.choice(["range", "ints", "text", "text", "numbers as text", "pairs", "negative"])
    if style == "range":
        return list(range(n))
    if style == "ints":
        return rng.sample(range(max(100, 3 * n)), n)
    if style == "negative":
        return rng.sample(range(-20 - n, 20), n)
    if style == "text":
        return rng.sample(["{}{}".format(c, k) for c in "abXY" for k in range(max(8, n))], n)
    if style == "numbers as text":
        return rng.sample([str(k) for k in range(2, 30 + n)], n)
    return rng.sample([(i, j) for i in range(6 + n // 6) for j in range(6)], n)


def rand_map_for(rng, job, nmin, nmax, rich=0.6):
    """Map, format, names and orders."""
    fmt = job["fmt"]
    if fmt == "gdf":
        job["contiguity"] = rng.choice([None, "rook", "queen", "Queen", "ROOK"])
        queen = (job["contiguity"] or "").lower() == "queen"
        job["cells"] = rand_cells(rng, rng.randint(max(2, nmin), max(nmin, nmax)))
        nb = touching(job["cells"], queen)
        job["index"] = rng.random() < 0.5
        job["oddcols"] = rng.random() < 0.4
    elif nmax >= 5 and rng.random() < rich:
        nb = gen.rich_map(rng, max(4, nmin), nmax)
    else:
        nb = gen.rand_map(rng, nmin, nmax)
    n = len(nb)
    job["nb"] = [sorted(s) for s in nb]
    job["names"] = rand_names(rng, n)
    if fmt == "w" and isinstance(job["names"][0], tuple):
        job["names"] = rng.sample(range(max(100, 3 * n)), n)
    job["order"] = rng.sample(range(n), n)
    job["order2"] = rng.sample(range(n), n)
    job["values"] = rng.choice(["scalar", "list", "array"])
    job["neighbours"] = rng.choice(["set", "list", "tuple", "frozenset"])
    job["nxattr"] = rng.choice(["node", "node", "dict"])
    job["nxstart"] = rng.choice(["node", "dict"])
    job["bothways"] = rng.random() < 0.3
    job["edgeweights"] = rng.random() < 0.2
    job["selfs"] = rng.random() < 0.15      # some areas are listed as their own neighbours
    job["idorder"] = rng.random() < 0.7
    if fmt == "w" and not job["idorder"]:       # W sorts the areas then
        job["order"] = sorted(range(n), key=lambda a: job["names"][a])
    job["transform"] = rng.choice([None, None, "r", "b"])
    job["flatattr"] = rng.random() < 0.3
    job["flatext"] = rng.random() < 0.5
    job["adjdtype"] = rng.choice(["int", "int", "float", "int8"])
    job["attrdtype"] = rng.choice(["int", "float"])
    job["extdtype"] = rng.choice(["int", "float"])
    job["startdtype"] = rng.choice(["int", "int32", "float"])
    return nb


def positions(job):
    """The area behind each element of labels_."""
    n = len(job["nb"])
    rows = job.get("order") or list(range(n))
    return rows
