"""C19: skater regions are connected, counted as requested and respect the quorum."""
import common
import gen
import rec_skater

RECORDERS = {"fits": rec_skater.fit_case}


def run(ctx):
    rng = ctx.rng("fits")
    ctx.model("pruning on all maps", "MC_Skater", workers=8)
    jobs = [rec_skater.rand_skater(rng, "fit", rng.choice([4, 7, 10]))
            for _ in range(ctx.n(2500, 30000))]
    jobs += rec_skater.instance_jobs(ctx, "fit", 900)
    for _ in range(ctx.n(5, 60)):
        job = rec_skater.rand_skater(rng, "fit", 6)
        nb = gen.big_map(rng, 128, 160)
        jobs.append(dict(job, nb=[sorted(s) for s in nb], names=None, nodata=False, n=rng.randint(2, 6),
                         obj=dict(kind="centre", metric="manhattan", centre="max", red="sum"),
                         attr=gen.rand_attr(rng, len(nb), 1, "digits"), affinity=False))
    cases = common.record(rec_skater.fit_case, jobs)
    ctx.judge("fits", "SkaterTrace", jobs, cases, weight=lambda c: len(c["nb"]) ** 2)
