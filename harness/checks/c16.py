"""C16: exact p-regions solutions are feasible and optimal for all three methods."""
import common
import rec_exact

RECORDERS = {"fits": rec_exact.exact_case}


def run(ctx):
    rng = ctx.rng("fits")
    jobs = []
    for _ in range(ctx.n(400, 1500)):
        # the three methods on the same problem
        job = rec_exact.rand_exact(rng, "flow", 1, rng.choice([4, 5, 6, 6] + ([7] if not ctx.quick else [])))
        for method in ("flow", "order", "tree"):
            jobs.append(dict(job, method=method, wall=ctx.n(15, 60)))
    # the tree method is fast enough for larger maps
    for _ in range(ctx.n(40, 400)):
        jobs.append(dict(rec_exact.rand_exact(rng, "tree", 5, 7), wall=15))
    jobs += rec_exact.instance_jobs(ctx, "pregions", ctx.n(15, 60))
    cases = common.record(rec_exact.exact_case, jobs, chunk=1)
    ctx.count("slow solver runs", sum(c["kind"] == "slow" for c in cases))
    ctx.judge("fits", "Exact", jobs, cases, weight=lambda c: 3 ** len(c["nb"]))
