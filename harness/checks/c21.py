"""C21: feasibility checks and graph helpers agree with their definitions."""
import itertools
import random

import networkx
import numpy as np
import pandas
from scipy.sparse import csr_matrix, csc_matrix, lil_matrix

import common
import gen
from common import clean, outcome


def recorder(job):
    from region import util
    from region import csgraph_utils as cu
    nb, lab = job["nb"], job["lab"]
    n = len(nb)
    rng = random.Random(job["seed"])
    random.seed(job["seed"])
    weights = [[0] * n for _ in range(n)]
    for a in range(n):
        for b in nb[a]:
            if a < b:
                weights[a][b] = weights[b][a] = rng.choice([1, 1, 1, 2, 3]) if job["weighted"] else 1
    cls = {"csr": csr_matrix, "csc": csc_matrix, "lil": lil_matrix}[job["matrix"]]
    adj = cls(np.array(weights, dtype=job["dtype"]))
    if job["matrix"] != "csr":
        adj = adj.tocsr()
    if job["zeros"]:                    # zeros stored explicitly: no links
        kept = [(a, b) for a in range(n) for b in range(n)
                if weights[a][b] or (a != b and rng.random() < 0.5)]
        adj = csr_matrix(([weights[a][b] for a, b in kept],
                          ([a for a, _ in kept], [b for _, b in kept])), shape=(n, n),
                         dtype=job["dtype"])
    labels = np.array(lab, dtype=job["ldtype"])
    comps = gen.components(nb)
    before = adj.copy()
    compnums = [k + 1 for a in range(n) for k, c in enumerate(comps) if a in c]
    job = dict(job, shares=rng.choice([list, tuple, np.array]))
    res = dict(nb=gen.tla_map(nb), lab=lab, weights=weights, what="", subs=[], feas=[], comps=[],
               lists=[], find=[], counts=[], moves=[], picks=[], picks1=[], tables=[], kept=[], conn=False, neigh=[],
               equal=False)

    def run():
        res["conn"] = bool(cu.is_connected(adj))
        res["neigh"] = [[int(b) + 1 for b in cu.neighbors(adj, a)] for a in range(n)]
        for _ in range(4):
            nodes = rng.sample(range(n), rng.randint(1, n))
            if rng.random() < 0.4:
                r = rng.choice(lab)
                nodes = [a for a in range(n) if lab[a] == r]
            wo = None
            form = rng.choice(["none", "int", "array", "npint"])
            if form in ("int", "npint"):
                wo = rng.randrange(n) if rng.random() < 0.3 else rng.choice(nodes)
                if len(nodes) == 1 and wo == nodes[0] and rng.random() < 0.5:
                    wo = None
                without = [] if wo is None else [wo]
                if form == "npint" and wo is not None:
                    wo = np.int64(wo)
            elif form == "array":
                without = rng.sample(range(n), rng.randint(0, n))
                if set(nodes) <= set(without):
                    without = without[:-1] if set(nodes) - set(without[:-1]) else []
                wo = np.array(without, dtype=int)
            else:
                without = []
            m = cu.sub_adj_matrix(adj, np.array(nodes), wo_nodes=wo) if form != "none" else \
                cu.sub_adj_matrix(adj, np.array(nodes))
            res["subs"].append(dict(
                nodes=[a + 1 for a in nodes], without=[a + 1 for a in without],
                matrix=[[int(x) for x in row] for row in m.toarray().tolist()],
                conn=bool(cu.is_connected(m))))
        k = len(set(lab))
        for p in [-1, k, rng.choice([k - 1, k + 1, n, 0])]:
            kw = {} if p < 0 else {"n_regions": p}
            try:
                util.assert_feasible(labels, adj, **kw)
                check = "ok"
            except ValueError:
                check = "error"
            try:
                b = "true" if util.boolean_assert_feasible(labels, adj, **kw) else "false"
            except ValueError:
                b = "error"
            res["feas"].append(dict(p=p, check=check, bool=b))
        res["comps"] = [[int(x) for x in row] for row in util.separate_components(adj, labels)]
        regions = [[a for a in range(n) if lab[a] == r] for r in sorted(set(lab))]
        rng.shuffle(regions)
        make = rng.choice([set, list, tuple])
        out = util.array_from_region_list([make(r) for r in regions])
        res["lists"].append(dict(regions=[[a + 1 for a in r] for r in regions],
                                 labels=[int(x) for x in out]))
        part = regions[:rng.randint(1, len(regions))]
        for el in range(n):
            try:
                pos = util.find_sublist_containing(el, [make(r) for r in part], index=True) + 1
                found = sorted(util.find_sublist_containing(el, [make(r) for r in part]))
            except LookupError:
                pos, found = 0, []
            res["find"].append(dict(el=el + 1, regions=[[a + 1 for a in r] for r in part], pos=pos,
                                    found=[int(a) + 1 for a in found]))
        for el in sorted(set(lab)) + [99]:
            res["counts"].append([el, int(util.count(labels, el))])
        res["equal"] = bool(util.all_elements_equal(labels))
        # tables: data frames and graphs to dictionaries
        cols = rng.sample(["x", "y", "z"], rng.randint(1, 3))
        rows = [[rng.randint(0, 9) for _ in cols] for _ in range(n)]
        names = rng.sample(range(max(50, 2 * n)), n)
        form = rng.choice([list, list, tuple]) if len(cols) > 1 else \
            rng.choice([list, lambda x: x[0]])
        df = pandas.DataFrame({c: [r[cols.index(c)] for r in rows] for c in sorted(cols)},
                              index=names)
        got = util.dataframe_to_dict(df, cols[0] if len(cols) == 1 and form is not list else cols)
        res["tables"].append(dict(what="dataframe-to-dict", keys=names, rows=rows,
                                  got=[[int(k), [int(x) for x in np.atleast_1d(v)]]
                                       for k, v in got.items()]))
        graph = networkx.Graph()
        graph.add_nodes_from(names)
        graph.add_edges_from((names[a], names[b]) for a in range(n) for b in nb[a])
        for k, c in enumerate(cols):
            networkx.set_node_attributes(graph, {x: r[k] for x, r in zip(names, rows)}, c)
        got = util.dict_from_graph_attr(graph, form(cols), **(
            {} if rng.random() < 0.5 else {"array_values": True}))
        res["tables"].append(dict(what="dict-from-graph-attr", keys=names, rows=rows,
                                  got=[[int(k), [int(x) for x in np.atleast_1d(v)]]
                                       for k, v in got.items()]))
        items = make(rng.sample(range(20), 4)) if make is not set else [3, 1, 4]
        res["picks1"].append(dict(list=list(items), picked=int(util.random_element_from(items))))
        res["kept"] += [
            ["the adjacency", (adj.toarray() == np.array(weights)).all() and
             adj.nnz == before.nnz and (adj.indices == before.indices).all()],
            ["the labels", (labels == np.array(lab)).all() and labels.dtype == job["ldtype"]],
            ["the frame", [list(df.loc[x][cols]) for x in names] == rows],
            ["the graph", sorted(graph.nodes()) == sorted(names) and all(
                [graph.nodes[x][c] for c in cols] == r for x, r in zip(names, rows))]]
        shares = job["shares"]([x - 1 for x in compnums])
        keep = list(shares)
        try:
            util.distribute_regions_among_components(shares, rng.randint(1, n))
        except ValueError:
            pass
        res["kept"].append(["the component labels", list(shares) == keep])
        res["kept"] = [[what, bool(same)] for what, same in res["kept"]]
        a, r = rng.randrange(n), rng.choice(lab)
        after = labels.copy()
        util.make_move(a, r, after)
        res["moves"].append(dict(area=a + 1, region=r, after=[int(x) for x in after]))
        lst = [rng.randint(0, 5) for _ in range(rng.randint(1, 5))]
        rest = list(lst)
        x = util.pop_randomly_from(rest)
        res["picks"].append(dict(list=lst, picked=x, rest=rest))

    kind, err = outcome(run)
    return dict(res, kind=kind, what=clean(err) if kind != "ok" else "")


RECORDERS = {"helpers": recorder}


def small_maps(nmax):
    for n in range(1, nmax + 1):
        pairs = list(itertools.combinations(range(n), 2))
        for mask in range(1 << len(pairs)):
            yield gen.from_edges(n, [e for k, e in enumerate(pairs) if mask >> k & 1])


def partitions(n):
    def rec(lab):
        if len(lab) == n:
            yield list(lab)
            return
        for k in range(max(lab, default=-1) + 2):
            yield from rec(lab + [k])
    return rec([])


def run(ctx):
    rng = ctx.rng("helpers")
    jobs = []

    def add(nb, lab):
        if rng.random() < 0.4:
            names = rng.sample(range(0, max(30, 2 * len(lab))), max(lab) + 1)
            lab = [names[x] for x in lab]
        jobs.append(dict(nb=[sorted(s) for s in nb], lab=lab, seed=rng.randrange(10 ** 6),
                         weighted=rng.random() < 0.3, zeros=rng.random() < 0.2, matrix=rng.choice(["csr", "csr", "csc", "lil"]),
                         dtype=rng.choice(["int", "float", "bool" if False else "int8"]),
                         ldtype=rng.choice(["int", "int32", "float"])))

    # every map and labelling of up to 4 areas
    for nb in small_maps(4):
        for lab in partitions(len(nb)):
            add(nb, lab)
    ctx.count("small maps and labellings", len(jobs))
    for _ in range(ctx.n(3000, 40000)):
        nb = gen.rand_map(rng, 5, rng.choice([6, 8, 12]), comps=rng.choice([1, 1, 2, 3, 4]))
        if rng.random() < 0.6:
            comps = gen.components(nb)
            lab = gen.rand_start(rng, nb, rng.randint(len(comps), len(nb)), odd_labels=False)
            if rng.random() < 0.5:          # nearly feasible
                lab[rng.randrange(len(lab))] = rng.choice(lab)
        else:
            lab = [rng.randint(0, 3) for _ in nb]
        order = sorted(set(lab))
        add(nb, [order.index(x) for x in lab])
    for _ in range(ctx.n(8, 80)):
        nb = gen.big_map(rng, 130, 160)
        comps = gen.components(nb)
        lab = gen.rand_start(rng, nb, rng.randint(len(comps), len(nb)), odd_labels=False)
        order = sorted(set(lab))
        add(nb, [order.index(x) for x in lab])
    cases = common.record(recorder, jobs)
    ctx.judge("helpers", "Helpers", jobs, cases)
