"""C17: exact max-p solutions have the maximum number of regions and the best value."""
import common
import rec_exact

RECORDERS = {"fits": rec_exact.exact_case}


def run(ctx):
    rng = ctx.rng("fits")
    jobs = []
    for _ in range(ctx.n(1200, 6000)):
        nmax = rng.choice([3, 4, 5, 5, 6] + ([7] if not ctx.quick else []))
        job = dict(rec_exact.rand_exact(rng, "maxp", 1, nmax), wall=ctx.n(15, 60))
        jobs.append(rec_exact.rand_magnitude(rng, job))
    jobs += [dict(rec_exact.torn(rng, rng.choice([4, 5, 6, 6])), wall=ctx.n(15, 60))
             for _ in range(ctx.n(500, 3000))]
    jobs += rec_exact.instance_jobs(ctx, "maxp", ctx.n(15, 60))
    cases = common.record(rec_exact.exact_case, jobs, chunk=1)
    ctx.count("slow solver runs", sum(c["kind"] == "slow" for c in cases))
    ctx.judge("fits", "Exact", jobs, cases, weight=lambda c: 3 ** len(c["nb"]))
