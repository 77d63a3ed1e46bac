"""C22: every fit comes to an end."""
import algos
import common
import rec_maxp

RECORDERS = {"fits": algos.fit_case, "max-p": rec_maxp.fit_case}


def run(ctx):
    rng = ctx.rng("fits")
    ctx.model("AZP on all maps", "MC_AZP", ctx.n("MC_AZP3.cfg", "MC_AZP.cfg"), workers=8)
    ctx.model("basic tabu on all maps", "MC_BasicTabu", workers=8)
    ctx.model("reactive tabu on all maps", "MC_ReactiveTabu", workers=8)
    ctx.model("annealing life cycle", "MC_SimAnneal", workers=8)
    ctx.model("max-p construction on all maps", "MC_MaxP", "MC_MaxPEnds.cfg", workers=8)
    jobs = []
    for algo in ("azp", "tabu", "rtabu"):
        for _ in range(ctx.n(500, 6000)):
            job = algos.rand_job(rng, algo, 2, rng.choice([4, 6, 9, 12]),
                                 ties=rng.choice([True, True, False]))
            jobs.append(dict(job, mode="ends"))
    jobs += algos.instance_jobs(ctx, ("azp", "tabu", "rtabu"), 300, mode="ends")
    for algo, most in (("azp", 400), ("tabu", 60), ("rtabu", 60)):
        for _ in range(ctx.n(most, 10 * most)):
            jobs.append(dict(algos.rounding_job(rng, algo), mode="ends"))
    for _ in range(ctx.n(300, 3000)):
        job = algos.rand_job(rng, "sa", 2, 9, ties="never", kinds=["pairwise"])
        jobs.append(dict(job, mode="ends"))
    cases = common.record(algos.fit_case, jobs)
    ctx.judge("fits", "Fit", jobs, cases)
    # max-p: the labels are judged elsewhere (C14)
    jobs = []
    for _ in range(ctx.n(600, 6000)):
        job = rec_maxp.rand_fit(rng, "ends", rng.choice([4, 7, 10]),
                                rng.choice([None, None, "azp", "tabu", "rtabu"]))
        if rng.random() < 0.5:
            job["attr"] = [list(job["attr"][0]) for _ in job["nb"]]
        if job["algo"] == "tabu":
            # walks over plateaus take their time: once, on small maps
            job["max_it"] = 1
        jobs.append(dict(job, mayrun=False, cpu=60))
    cases = common.record(rec_maxp.fit_case, jobs)
    ctx.judge("max-p", "MaxPTrace", jobs, cases)
