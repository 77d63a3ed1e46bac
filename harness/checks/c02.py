"""C02: greedy and tabu fits never end worse than they started (annealing: at T ~ 0)."""
import algos
import common

RECORDERS = {"fits": algos.fit_case}


def run(ctx):
    rng = ctx.rng("fits")
    ctx.model("AZP on all maps", "MC_AZP", "MC_AZP3.cfg", workers=8)
    ctx.model("basic tabu on all maps", "MC_BasicTabu", workers=8)
    ctx.model("reactive tabu on all maps", "MC_ReactiveTabu", workers=8)
    jobs = []
    for algo, k in (("azp", 3), ("sa", 1), ("tabu", 3), ("rtabu", 3)):
        for _ in range(ctx.n(220, 2500) * k):
            kinds = None if rng.random() < 0.5 else ["centre"]
            job = algos.rand_job(rng, algo, 2, rng.choice([4, 6, 9, 12]), start=True,
                                 kinds=kinds, cold=True)
            jobs.append(dict(job, mode="better"))
    jobs += algos.instance_jobs(ctx, ("azp", "sa", "tabu", "rtabu"), 240, start=True, cold=True,
                                mode="better")
    jobs = [dict(algos.big_job(rng, algo, True), mode="better")
            for algo, most in (("azp", 5), ("tabu", 3), ("rtabu", 3))
            for _ in range(ctx.n(most, 10 * most))] + jobs
    cases = common.record(algos.fit_case, jobs)
    ctx.judge("fits", "Fit", jobs, cases)
