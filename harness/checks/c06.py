"""C06: reactive tabu is a bounded steepest descent that returns its best solution."""
import algos
import common
import rec_walk


def recorder(job):
    out = []
    for c in rec_walk.walk_cases(job):
        if c["kind"] == "ok":
            walk = ([c["start"]] if c["start"] and (not c["walk"] or c["walk"][0] != c["start"])
                    else []) + c["walk"]
            if not c["final"] or len(set(walk[0])) == 1:
                continue
        else:
            walk = [[0]]
            c = dict(c, nb=[[]], attr=[[0]], obj=dict(job["obj"], metric="manhattan"))
        out.append(dict(nb=c["nb"], obj=c["obj"], attr=c["attr"], walk=walk, final=c["final"],
                        maxit=job["par"]["max_iterations"], kind=c["kind"], what=c["what"]))
    return out


RECORDERS = {"searches": recorder}


def run(ctx):
    rng = ctx.rng("searches")
    ctx.model("reactive tabu on all maps", "MC_ReactiveTabu",
              "MC_ReactiveTabu.cfg" if ctx.quick else "MC_ReactiveTabu_deep.cfg", workers=8)
    jobs = []
    for _ in range(ctx.n(3000, 30000)):
        jobs.append(algos.rand_job(rng, "rtabu", 3, rng.choice([5, 7, 9, 11]), rich=0.9,
                                   ties=rng.choice([False, False, False, True])))
    jobs += algos.instance_jobs(ctx, ("rtabu",), 600)
    recs = common.record(recorder, jobs)
    flatjobs = [j for j, r in zip(jobs, recs) for _ in r]
    cases = [c for r in recs for c in r]
    ctx.count("moves", sum(len(c["walk"]) - 1 for c in cases))
    ctx.judge("searches", "ReactiveTrace", flatjobs, cases, weight=lambda c: 3 + len(c["walk"]))
