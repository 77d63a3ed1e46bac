"""C20: skater prunes a minimum spanning forest by the best cut each time."""
import common
import rec_skater

RECORDERS = {"prunings": rec_skater.prune_case}


def run(ctx):
    rng = ctx.rng("fits")
    jobs = [rec_skater.rand_skater(rng, "prune", rng.choice([4, 6, 8, 10]))
            for _ in range(ctx.n(700, 9000))]
    jobs += rec_skater.instance_jobs(ctx, "prune", 450)
    cases = common.record(rec_skater.prune_case, jobs)
    ctx.judge("prunings", "SkaterTrace", jobs, cases, weight=lambda c: len(c["nb"]) ** 3)
