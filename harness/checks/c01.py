"""C01: heuristic p-regions fits return feasible regionalizations."""
import algos
import common

RECORDERS = {"fits": algos.fit_case}


def run(ctx):
    rng = ctx.rng("fits")
    ctx.model("moves on all maps", "MC_AZP", "MC_AZPMoves.cfg", workers=8)
    jobs = []
    for algo, k in (("azp", 4), ("sa", 2), ("tabu", 12), ("rtabu", 4)):
        for _ in range(ctx.n(250, 2500) * k):
            jobs.append(algos.rand_job(rng, algo, 1, rng.choice([4, 6, 9, 12])))
    for algo in ("azp", "sa", "tabu", "rtabu"):
        for _ in range(ctx.n(60, 1000)):
            job = algos.rounding_job(rng, algo)
            jobs.append(dict(job, mayrun=True, cpu=2) if algo == "sa" else job)
    jobs += algos.instance_jobs(ctx, ("azp", "sa", "tabu", "rtabu"), 300)
    jobs = [algos.big_job(rng, algo) for algo, most in
            (("azp", 8), ("sa", 3), ("tabu", 4), ("rtabu", 4))
            for _ in range(ctx.n(most, 10 * most))] + jobs
    cases = common.record(algos.fit_case, jobs)
    ctx.judge("fits", "Fit", jobs, cases)
