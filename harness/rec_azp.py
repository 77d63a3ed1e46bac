"""Recording what AZP offers its move rule."""
import random

import numpy as np

import algos
import gen
from common import outcome, clean, Budget, int_labels

BUDGET = 4000


def strategy_class():
    from region.p_regions.azp_util import AllowMoveAZP

    class Logged(AllowMoveAZP):
        """Logs offers; mode: "azp", "none" (reject all) or "random"."""

        def __init__(self, mode, seed, accepts):
            self.mode, self.accepts = mode, accepts
            self.rng = random.Random(seed)
            self.runs = []
            self.calls = 0
            super().__init__()

        def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
            self.runs.append(dict(idx=[int(x) for x in comp_idx],
                                  start=[int(x) for x in initial_labels], events=[]))
            self.last = None
            super().start_new_component(initial_labels, attr, objective_func, comp_idx)

        def __call__(self, moving_area, new_region, labels):
            self.calls += 1
            if self.calls > BUDGET:
                raise Budget()
            lab = [int(x) for x in labels]
            shown = lab if lab != self.last else []
            self.last = lab
            if self.mode == "azp":
                ok = bool(super().__call__(moving_area, new_region, labels))
            elif self.mode == "none":
                ok = False
            else:
                ok = self.accepts > 0 and self.rng.random() < 0.5
                if ok:
                    self.accepts -= 1
                    self.objective_val += self.objective_func.update(
                        moving_area, new_region, labels, self.attr)
            self.runs[-1]["events"].append(
                dict(a=int(moving_area) + 1, r=int(new_region), ok=ok, l=shown))
            return ok

    return Logged


def azp_cases(job):
    """Recorder: one fit; one case per component."""
    strat = strategy_class()(job["mode"], job["seed"], job.get("accepts", 5))

    def go():
        from region.p_regions.azp import AZP
        return algos.fit(job, est=AZP(allow_move_strategy=strat, random_state=job["seed"]))

    kind, res = outcome(go, cpu=20)
    what = clean(res) if kind != "ok" else ""
    labels = int_labels(res.labels_) if kind == "ok" else None
    cases = []
    comps = {tuple(sorted(c)) for c in gen.components(job["nb"])}
    seen = {tuple(sorted(run["idx"])) for run in strat.runs}
    wrong = seen - comps
    if kind == "ok" and labels and len(labels) == len(job["nb"]):
        # a component with several regions has to be searched
        wrong |= {c for c in comps - seen if len({labels[a] for a in c}) > 1}
    for c in sorted(wrong)[:1]:
        cases.append(dict(nb=[[]], obj=job["obj"], attr=[job["attr"][0]], start=[0],
                          rule="any", events=[], final=[0], kind="error",
                          what="areas {} {}".format([a + 1 for a in c], clean(
                              "searched apart" if c in seen else "not searched"))))
    for run in strat.runs:
        idx = run["idx"]
        if tuple(sorted(idx)) not in comps or len(run["start"]) != len(idx):
            continue
        pos = {a: i for i, a in enumerate(idx)}
        nb = [sorted(pos[b] + 1 for b in job["nb"][a] if b in pos) for a in idx]
        final = [labels[a] for a in idx] if labels and len(labels) == len(job["nb"]) else []
        cases.append(dict(nb=nb, obj=job["obj"], attr=[job["attr"][a] for a in idx],
                          start=run["start"], rule="azp" if job["mode"] == "azp" else "any",
                          events=run["events"], final=final, kind=kind, what=what))
    return cases
