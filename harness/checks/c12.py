"""C12: the same seed and input always give the same labels."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

import common
import rec_history

KINDS = [("azp", 3), ("sa", 3), ("tabu", 2), ("rtabu", 2), ("maxp", 4)]


def replay(job):
    """All answers to one request: twice here, and in two other processes."""
    out = rec_history.twice(job)
    scratch = os.environ["VERIF_SCRATCH"]
    for h in job["hashseeds"]:
        out += rec_history.elsewhere([job], h, scratch)
    return merge(out)


RECORDERS = {"answers": replay}


def merge(events):
    """All answers to one request as a history of as many objects."""
    if any(e["kind"] in ("timeout", "slow") for e in events):
        events = []
    for k, e in enumerate(events):
        e["est"] = k + 1
    return dict(mode="same", objects=max(1, len(events)), events=events, what="")


def rand_job(rng, kind, hashseeds):
    cons = rec_history.rand_cons(rng, kind)
    cons["seed"] = rng.choice([rng.randrange(10 ** 6), rng.randrange(10 ** 6), 0, "a seed",
                               "bytes:seed"])
    step = rec_history.rand_request(rng, kind, 9, ties="sa" not in (kind, cons.get("ls")),
                                    start=rng.random() < 0.3 or None)
    return dict(cons=cons, step=step, drawn=rng.randrange(20), before=rng.randrange(10 ** 6),
                hashseeds=hashseeds, cpu=5)


def run(ctx):
    ctx.model("answers depend on the request only", "MC_Estimator",
              ctx.n("MC_Estimator.cfg", "MC_Estimator_deep.cfg"), workers=8, timeout=800)
    rng = ctx.rng("answers")
    hashseeds = [rng.randrange(1, 10 ** 6), rng.randrange(1, 10 ** 6)]
    jobs = []
    for kind, share in KINDS:
        for _ in range(ctx.n(45, 350) * share):
            jobs.append(rand_job(rng, kind, hashseeds))
    rng.shuffle(jobs)
    here = common.record(rec_history.twice, jobs, chunk=4)
    jobs = json.loads(json.dumps(jobs))
    chunks = [list(range(k, len(jobs), 4)) for k in range(4)]
    scratch = os.environ["VERIF_SCRATCH"]
    work = [(h, c) for h in hashseeds for c in chunks]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda w: rec_history.elsewhere([jobs[i] for i in w[1]], w[0], scratch),
                          work))
    for (h, c), r in zip(work, res):
        for i, ev in zip(c, r):
            here[i].append(ev)
    cases = [merge(ev) for ev in here]
    ctx.count("requests with all answers in time", sum(1 for c in cases if c["events"]))
    ctx.judge("answers", "EstimatorTrace", jobs, cases)
