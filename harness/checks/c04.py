"""C04: AZP offers every legal move and stops only at a local optimum."""
import algos
import common
import gen
import rec_azp

RECORDERS = {"sweeps": lambda job: rec_azp.azp_cases(job)}


def run(ctx):
    rng = ctx.rng("sweeps")
    ctx.model("AZP on all maps", "MC_AZP", "MC_AZP.cfg" if ctx.quick else "MC_AZP_deep.cfg",
              workers=8)
    ctx.model("any rule on all maps", "MC_AZP", "MC_AZPAny.cfg", workers=8)
    jobs = []
    for _ in range(ctx.n(2500, 30000)):
        job = algos.rand_job(rng, "azp", 2, rng.choice([4, 6, 8, 9]), rich=0.9,
                             ties=rng.choice([False, False, False, True]))
        if rng.random() < 0.25:
            # sweeps that gain next to nothing compared with the total
            n = len(job["nb"])
            job["obj"] = dict(kind="pairwise", metric="manhattan", centre="mean", red="sum")
            job["attr"] = gen.rand_attr(rng, n, cols=1, style="outliers")
            job["mode"] = rng.choice(["azp", "random", "random"])
            job["accepts"] = rng.choice([1, 1, 3])
        else:
            job["mode"] = rng.choice(["azp", "azp", "random", "none"])
            job["accepts"] = rng.choice([1, 3, 8])
        jobs.append(job)
    for job in algos.instance_jobs(ctx, ("azp",), 600):
        jobs.append(dict(job, mode=rng.choice(["azp", "azp", "random", "none"]),
                         accepts=rng.choice([1, 3, 8])))
    recs = common.record(rec_azp.azp_cases, jobs)
    flatjobs = [j for j, r in zip(jobs, recs) for _ in r]
    cases = [c for r in recs for c in r]
    ctx.count("offers", sum(len(c["events"]) for c in cases))
    ctx.judge("sweeps", "AZPTrace", flatjobs, cases,
              weight=lambda c: 5 + len(c["events"]) * len(set(c["start"])))
