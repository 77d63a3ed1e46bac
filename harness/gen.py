"""Generators of maps, attribute tables and labellings (0-based areas)."""
import random


def grid(r, c, queen=False):
    nb = [set() for _ in range(r * c)]
    for i in range(r):
        for j in range(c):
            for di, dj in ((0, 1), (1, 0)) + (((1, 1), (1, -1)) if queen else ()):
                a, b = i + di, j + dj
                if 0 <= a < r and 0 <= b < c:
                    nb[i * c + j].add(a * c + b)
                    nb[a * c + b].add(i * c + j)
    return nb


def from_edges(n, edges):
    nb = [set() for _ in range(n)]
    for a, b in edges:
        if a != b:
            nb[a].add(b)
            nb[b].add(a)
    return nb


def rand_tree(rng, n):
    return from_edges(n, [(i, rng.randrange(i)) for i in range(1, n)])


def connected_map(rng, n):
    """A connected map with exactly n areas."""
    kind = rng.choice(["path", "cycle", "star", "tree", "tree+", "tree+", "grid", "queen", "grid",
                       "complete"])
    if kind == "path":
        return from_edges(n, [(i, i + 1) for i in range(n - 1)])
    if kind == "cycle":
        return from_edges(n, [(i, (i + 1) % n) for i in range(n)] if n > 2 else
                          [(i, i + 1) for i in range(n - 1)])
    if kind == "star":
        return from_edges(n, [(0, i) for i in range(1, n)])
    if kind == "tree":
        return rand_tree(rng, n)
    if kind == "tree+":
        nb = rand_tree(rng, n)
        for _ in range(rng.randint(1, n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                nb[a].add(b)
                nb[b].add(a)
        return nb
    if kind == "complete":
        if n > 6:
            return connected_map(rng, n)
        return from_edges(n, [(i, j) for i in range(n) for j in range(i)])
    # grid-like: cut a grid down to n areas, stay connected (row-major prefix)
    c = rng.randint(1, max(1, int(n ** 0.5) + 1))
    r = -(-n // c)
    g = grid(r, c, kind == "queen")
    return [set(b for b in g[a] if b < n) for a in range(n)]


def union(rng, maps):
    nb = []
    for m in maps:
        off = len(nb)
        nb += [set(x + off for x in s) for s in m]
    return shuffle(rng, nb)


def shuffle(rng, nb):
    n = len(nb)
    p = list(range(n))
    rng.shuffle(p)
    out = [None] * n
    for a in range(n):
        out[p[a]] = set(p[b] for b in nb[a])
    return out


def rand_map(rng, nmin=1, nmax=10, comps=None):
    n = rng.randint(nmin, nmax)
    k = comps or rng.choice([1, 1, 1, 2, 2, 3])
    k = min(k, n)
    sizes = [1] * k
    for _ in range(n - k):
        if rng.random() < 0.3 and k > 1:
            sizes[rng.randrange(k)] += 1
        else:
            sizes[0] += 1
    rng.shuffle(sizes)
    return union(rng, [connected_map(rng, s) for s in sizes])


def rich_map(rng, nmin=5, nmax=10):
    """Mostly one component, with room for moves."""
    n = rng.randint(nmin, nmax)
    r = rng.random()
    if r < 0.5:
        return shuffle(rng, connected_map(rng, n))
    if r < 0.7:
        c = rng.choice([2, 3, 3, 4])
        g = grid(max(2, round(n / c)), c, rng.random() < 0.3)
        return shuffle(rng, g)
    k = rng.choice([1, 1, 2])
    return union(rng, [connected_map(rng, max(2, n - k))] +
                 [connected_map(rng, rng.choice([1, 1, 2]))])


def big_map(rng, nmin=130, nmax=300):
    """A map of more areas than a small integer type can number; sparse."""
    n = rng.randint(nmin, nmax)
    kind = rng.choice(["grid", "grid", "path", "tree", "parts", "isolated"])
    if kind == "grid":
        c = rng.randint(3, 12)
        g = grid(-(-n // c), c)
        nb = [set(b for b in g[a] if b < n) for a in range(n)]
    elif kind == "path":
        nb = from_edges(n, [(i, i + 1) for i in range(n - 1)])
    elif kind == "tree":
        nb = from_edges(n, [(i, max(0, i - rng.randint(1, 6))) for i in range(1, n)])
    elif kind == "parts":
        k = rng.randint(2, 5)
        return union(rng, [big_map(rng, n // k, n // k) for _ in range(k)])
    else:
        k = rng.randint(1, 20)
        return union(rng, [big_map(rng, n - k, n - k)] + [[set()]] * k)
    return shuffle(rng, nb) if rng.random() < 0.7 else nb


def rich_p(rng, nb):
    k, n = len(components(nb)), len(nb)
    return rng.randint(min(n, k + 1), max(min(n, k + 1), min(n, k + max(1, n // 2))))


def components(nb):
    seen, out = set(), []
    for a in range(len(nb)):
        if a in seen:
            continue
        comp, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for y in nb[x]:
                if y not in comp:
                    comp.add(y)
                    todo.append(y)
        seen |= comp
        out.append(sorted(comp))
    return out


def is_conn(nb, s):
    s = set(s)
    if not s:
        return False
    a = next(iter(s))
    comp, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for y in nb[x]:
            if y in s and y not in comp:
                comp.add(y)
                todo.append(y)
    return comp == s


def rand_p(rng, nb, cap=None):
    k, n = len(components(nb)), len(nb)
    hi = n if cap is None else max(k, min(n, cap))
    r = rng.random()
    if r < 0.1:
        return k
    if r < 0.2:
        return hi
    if r < 0.3:
        return max(k, hi - 1)
    return rng.randint(k, hi)


def rand_start(rng, nb, p, odd_labels=True):
    """A random feasible labelling with p regions (list of ints)."""
    comps = components(nb)
    n = len(nb)
    # grow p seeds, at least one in each component
    seeds = [rng.choice(c) for c in comps]
    rest = [a for a in range(n) if a not in seeds]
    rng.shuffle(rest)
    seeds += rest[:p - len(seeds)]
    names = list(range(p))
    if odd_labels and rng.random() < 0.4:
        names = rng.sample(range(-3, 50 + p), p) if rng.random() < 0.7 else rng.sample(range(-2, p), p)
    rng.shuffle(names)
    lab = [None] * n
    for s, nm in zip(seeds, names):
        lab[s] = nm
    while None in lab:
        fr = [(a, b) for a in range(n) if lab[a] is None for b in nb[a] if lab[b] is not None]
        a, b = rng.choice(fr)
        lab[a] = lab[b]
    return lab


def rand_attr(rng, n, cols=None, style=None):
    """Integer attribute table (list of lists)."""
    m = cols or rng.choice([1, 1, 2, 3])
    style = style or rng.choice(["bits", "small", "digits", "digits", "wide", "equal", "ramp", "neg"])
    if style == "bits":
        f = lambda i, k: rng.randint(0, 1)
    elif style == "small":
        f = lambda i, k: rng.randint(0, 3)
    elif style == "digits":
        f = lambda i, k: rng.randint(0, 9)
    elif style == "wide":
        f = lambda i, k: rng.randint(0, 1000)
    elif style == "equal":
        v = rng.randint(0, 5)
        f = lambda i, k: v
    elif style == "neg":
        f = lambda i, k: rng.randint(-20, 20)
    elif style == "outliers":      # most differences are tiny compared with the total
        # (TLC's integers end at 2^31: sums over all pairs have to stay below)
        high = [e for e in (4, 6, 7, 8) if (2 * n + 2) * m * 10 ** e < 2 ** 31]
        far = {rng.randrange(n): 10 ** rng.choice(high) for _ in range(rng.choice([1, 2]))}
        sign = rng.choice([1, -1])
        f = lambda i, k: sign * far.get(i, 0) + rng.randint(0, rng.choice([9, 99]))
    else:
        f = lambda i, k: i * (k + 1)
    return [[f(i, k) for k in range(m)] for i in range(n)]


def attr_for_metric(rng, n, metric, outliers=False):
    """Tables for which the dissimilarities are exact integers."""
    if metric in ("euclidean", "l2"):
        return [[3 * v, 4 * v] for v in (rng.randint(0, 9) for _ in range(n))]
    if metric == "cosine":
        m = rng.randint(2, 3)
        out = []
        for _ in range(n):
            v = [0] * m
            v[rng.randrange(m)] = rng.choice([1, 2, 5, -1])
            out.append(v)
        return out
    if outliers and metric != "sqeuclidean" and rng.random() < 0.2:
        return rand_attr(rng, n, style="outliers")
    return rand_attr(rng, n)


def tla_map(nb):
    return [[b + 1 for b in sorted(s)] for s in nb]


def edges(nb):
    return [(a, b) for a in range(len(nb)) for b in sorted(nb[a]) if a < b]


def show(nb):
    return " ".join("{}-{}".format(a, b) for a, b in edges(nb)) + " n={}".format(len(nb))
