"""C05: basic tabu takes the best admissible move and honours its tabu list."""
import algos
import common
import rec_walk


def recorder(job):
    par = job["par"]
    out = []
    for c in rec_walk.walk_cases(job):
        if c["kind"] == "ok":
            walk = ([c["start"]] if c["start"] else []) + c["walk"]
            walk = [w for k, w in enumerate(walk) if k == 0 or w != walk[k - 1]]
            if c["final"] and c["final"] != walk[-1]:
                walk.append(c["final"])
            if not c["final"]:
                continue               # too long to be judged
        else:
            walk = [[0]]
            c = dict(c, nb=[[]], attr=[[0]], obj=dict(job["obj"], metric="manhattan"))
        if len(set(walk[0])) == 1 and c["kind"] == "ok":
            continue                   # one region: nothing to search
        length = par.get("tabu_length")
        out.append(dict(nb=c["nb"], obj=c["obj"], attr=c["attr"], walk=walk,
                        len=-1 if length is None else length,
                        reps=par.get("repetitions_before_termination", 5),
                        kind=c["kind"], what=c["what"]))
    return out


RECORDERS = {"searches": recorder}


def run(ctx):
    rng = ctx.rng("searches")
    ctx.model("basic tabu on all maps", "MC_BasicTabu",
              "MC_BasicTabu.cfg" if ctx.quick else "MC_BasicTabu_deep.cfg", workers=8)
    jobs = []
    for _ in range(ctx.n(2500, 25000)):
        jobs.append(algos.rand_job(rng, "tabu", 3, rng.choice([5, 7, 9, 11]), rich=0.9,
                                   ties=rng.choice([False, False, False, True])))
    for _ in range(ctx.n(1300, 5000)):       # longer searches with longer lists
        job = algos.rand_job(rng, "tabu", 5, 7, start=False, rich=1)
        job["p"] = rng.choice([3, 4])
        if job["obj"]["kind"] == "pairwise" and rng.random() < 0.8:
            job["obj"] = dict(job["obj"], metric="manhattan")
            job["attr"] = [[rng.randint(0, rng.choice([1, 1, 3]))] for _ in job["nb"]]
        job["par"] = dict(tabu_length=rng.choice([4, 5, 6, 6, 8, 10]),
                          repetitions_before_termination=rng.choice([4, 5, 6]))
        jobs.append(job)
    jobs += algos.instance_jobs(ctx, ("tabu",), 600)
    recs = common.record(recorder, jobs)
    flatjobs = [j for j, r in zip(jobs, recs) for _ in r]
    cases = [c for r in recs for c in r]
    ctx.count("moves", sum(len(c["walk"]) - 1 for c in cases))
    ctx.judge("searches", "TabuTrace", flatjobs, cases, weight=lambda c: 3 + len(c["walk"]))
