"""Recording the working solutions of a local search through its objective function."""
import numpy as np

import algos
import gen
from common import outcome, clean, Budget, int_labels


def logging_objective(spec, log, budget=60000):
    """Objective that ignores the last attribute (the area's id) and logs update calls."""
    from region.objective_function import ObjectiveFunctionPairwise, ObjectiveFunctionCenter
    from region.util import get_metric_function
    base_metric = algos.metric_function(spec["metric"])
    base = get_metric_function(base_metric) if isinstance(base_metric, str) else base_metric

    def metric(x, y, *args, **kw):
        return base(x[:, :-1], y[:, :-1])

    cls = ObjectiveFunctionPairwise if spec["kind"] == "pairwise" else ObjectiveFunctionCenter

    class Logging(cls):
        calls = 0

        def update(self, moving_area, recipient_region, labels, attr):
            Logging.calls += 1
            if Logging.calls > budget:
                raise Budget()
            log(attr, labels, moving_area, recipient_region)
            return super().update(moving_area, recipient_region, labels, attr)

    if spec["kind"] == "pairwise":
        return Logging(metric)
    return Logging(metric, algos.FUNCS[spec["centre"]], algos.FUNCS[spec["red"]])


def walk_cases(job):
    """Recorder: one fit; one case per component that was searched."""
    nb = job["nb"]
    n = len(nb)
    walks, bad = {}, []

    def log(attr, labels, area, region):
        ids = [int(x) for x in attr[:, -1]]
        lab = [int(x) for x in labels]
        if len(ids) != len(lab):
            bad.append(1)
            return
        w = walks.setdefault(tuple(ids), [])
        if not w or w[-1] != lab:
            w.append(lab)

    obj = logging_objective(job["obj"], log)
    attr = algos.attr_array(job, ids=True)
    kind, res = outcome(lambda: algos.fit(job, obj=obj, attr=attr), cpu=job.get("cpu", 20))
    what = "{} {}".format(job["algo"], clean(res) if kind != "ok" else "")
    labels = int_labels(res.labels_) if kind == "ok" else None
    comps = {tuple(c) for c in gen.components(nb)}
    base = dict(obj=job["obj"], descent=job["algo"] != "sa", best=job["algo"] == "rtabu",
                mayrun=bool(job.get("mayrun")), kind=kind, what=what)
    empty = dict(base, nb=[], attr=[], start=[], walk=[], final=[])
    if bad or any(tuple(sorted(k)) not in comps for k in walks):
        return [dict(empty, kind="mixed")]
    if kind != "ok":
        cases = [empty]
        if kind == "timeout" and job.get("mayrun"):
            cases = []
    else:
        cases = []
    for c in comps:
        ids = next((k for k in walks if tuple(sorted(k)) == c), c)
        walk = walks.get(ids, [])
        pos = {a: k for k, a in enumerate(ids)}
        start = [job["start"][a] for a in ids] if job.get("start") else []
        final = [labels[a] for a in ids] if labels and len(labels) == n else []
        if kind == "ok" and not final:
            final = [-99]
        if not walk and not start:
            continue
        cases.append(dict(base, kind="ok", nb=[sorted(pos[b] + 1 for b in nb[a]) for a in ids],
                          attr=[job["attr"][a] for a in ids], start=start,
                          walk=walk[:400], final=final if len(walk) <= 400 else []))
    return cases
